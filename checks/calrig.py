"""A02: calibrations describe the rig that took the images."""
import argparse, json, random, shutil
from pathlib import Path
import numpy as np, cv2, yaml
import imgdive, rig, lib
from lib import tlc_model, tlc_validate
import calflow

TOP, BOTTOM = (1, .03, -.15, .05), (1, -.02, .15, .2)
_boards = {}


def boards(key, rng, n, cs):
    """board poses seen by all cameras; some campaigns share them to save time"""
    if key not in _boards:
        poses = rig.board_poses(np.random.default_rng(key), n, cs)
        _boards[key] = poses
    return _boards[key]


class Names:
    """file names of shot k for either camera, or None"""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.jit = {}

    def stamp(self, k, c):
        if self.kind in ("same", "image"):
            return 0
        if (k, c) not in self.jit:
            self.jit[k, c] = self.rng.choice([0, 5, 20]) if c else 0
        return self.jit[k, c]

    def name(self, k, c):
        if self.kind == "same":
            return rig.sx_name(k)
        if self.kind == "image":
            return ("image" if c == 0 else "") + rig.sx_name(k)
        if self.kind == "imageR":
            return ("image" if c == 1 else "") + rig.sx_name(k)
        if self.kind == "acfr":
            t = 1000 * k + self.stamp(k, c)
            return "PR_20200101_12%02d%02d_%03d_%s16" % (t // 60000, t // 1000 % 60, t % 1000, "LR"[c] + "C")
        return rig.bio_name(k, "cam%d" % c, self.stamp(k, c), self.stamp(k, c))


def call(w, op, force=0, uncert=3):
    w.out.mkdir(parents=True, exist_ok=True)
    with imgdive.calm():
        return lib.cli("auv_cal", op, w.out, *[[], ["-F"], ["-FF"]][force], *(["-u", uncert] if op == "laser" else []))


def q(x, s):
    return [int(round(float(v) * s)) for v in np.ravel(x)]


def campaign(ctx, rng, n, evs, logs):
    root = ctx.work / ("r%d" % n)
    names = ["vrig%dA" % n, "vrig%dB" % n]
    f1, f2 = rng.uniform(270, 310), rng.uniform(260, 310)
    size2 = rng.choice([(rig.W, rig.H)] * 3 + [(270, 210), (300, 280), (300, 200)])
    a = rig.Camera(names[0], f=f1, c=(rig.W / 2 + rng.uniform(-8, 8), rig.H / 2 + rng.uniform(-8, 8)))
    b = rig.Camera(names[1], f=f2 * size2[0] / rig.W, c=(size2[0] / 2 + rng.uniform(-6, 6), size2[1] / 2 + rng.uniform(-6, 6)), size=size2,
                   R=rig.rot(rng.uniform(.0, .05), rng.uniform(-.03, .03), rng.uniform(-.03, .03)), t=(rng.uniform(-.02, .02), -rng.uniform(.2, .28), rng.uniform(-.02, .02)))
    w = rig.Campaign(root, [a, b])
    for c in names:
        w.branch[c] = rng.choice(["raw", "processed"])
    kind = rng.choice(["same", "same", "image", "biocam", "acfr"])
    nm = Names(rng, kind)
    poses = rig.board_poses(np.random.default_rng(rng.randrange(1 << 30)), 18, [a, b], z=(1.15, 1.9))
    lost = {c: set(rng.sample(range(18), rng.choice([0, 1, 3]))) for c in (0, 1)}
    for k, (R, t) in enumerate(poses):
        for c, cam in enumerate((a, b)):
            if k in lost[c]:
                continue
            w.put(cam, "camera", nm.name(k, c), rig.board_image(cam, R, t))
    info = dict(campaign=n, names=kind, size2=size2, lost={c: sorted(v) for c, v in lost.items()}, branch=w.branch)
    # laser shots
    two = rng.random() < .5
    lk = "same" if kind in ("same", "acfr") else rng.choice([kind, "imageR"]) if kind == "image" else kind
    lm = Names(rng, lk)
    m = 12
    depth = np.linspace(1.9, 4.1, m)
    rng.shuffle(depth)
    gone = {c: set(rng.sample(range(m), rng.choice([0, 1, 2]))) for c in (0, 1)}
    dark = set(rng.sample(range(m), rng.choice([0, 1])))
    for k in range(m):
        for c, cam in enumerate((a, b)):
            if k not in gone[c]:
                side = k in dark and (two or c == 0)
                img = rig.laser_image(cam, [TOP, BOTTOM] if two else [TOP], (np.array([0, 0, 1.]), depth[k]))
                if k in dark:
                    img[:] = 3
                w.put(cam, "laser", lm.name(k, c), img)
    per_bin = rng.choice([300, 40, 25])
    skip = rng.choice([0, 0, 1, 2])
    zlo, zhi = rng.choice([(1.8, 4.2), (1.8, 4.2), (2.05, 4.2), (1.8, 3.95)])
    for c in (0, 1):      # the first images of either camera are left out
        gone[c] |= set([k for k in range(m) if k not in gone[c]][:skip])
    w.write_conf(**({"skip_first": skip} if skip else {}), detection=dict(two_lasers=two, **(dict(end_row=140, start_row_b=150) if two else {})), stratify=dict(max_points_per_bin=per_bin, number_of_bins=4, min_z_m=zlo, max_z_m=zhi))
    info.update(two=two, gone={c: sorted(v) for c, v in gone.items()}, dark=sorted(dark), laser_names=lk, skip=skip, range=[zlo, zhi], per_bin=per_bin)
    logs_ = lambda **k: dict(info, **k)
    # mono
    st, val, con = call(w, "mono")
    base = {}
    for cam in (a, b):
        y = w.out / ("mono_%s.yaml" % cam.name)
        ok = y.exists()
        K = rig.fs_mats(y, "camera_matrix")[0] if ok else np.zeros((3, 3))
        got = q([K[0, 0], K[1, 1], K[0, 2], K[1, 2]], 100)
        rms = yaml_value(y, "avg_reprojection_error") if ok else 99
        evs.append(dict(op="mono", status="ok" if ok and st == "ok" else "no", got=got, true=q([cam.K[0, 0], cam.K[1, 1], cam.K[0, 2], cam.K[1, 2]], 100),
                        ftol=800, ctol=700, rms=q([rms], 1000)[0], maxrms=250, again=[]))
        base[cam.name] = evs[-1]
        logs.append(logs_(camera=cam.name, note=str(val)[-300:]))
    if rng.random() < .4:      # results again from the detections
        call(w, "mono", force=1)
        for cam in (a, b):
            K = rig.fs_mats(w.out / ("mono_%s.yaml" % cam.name), "camera_matrix")[0]
            e = dict(base[cam.name])
            e["again"] = q([K[0, 0], K[1, 1], K[0, 2], K[1, 2]], 100)
            evs.append(e)
            logs.append(logs_(camera=cam.name, note="recomputed from the detections"))
    # stereo
    st, val, con = call(w, "stereo")
    y = w.out / ("stereo_%s_%s.yaml" % tuple(names))
    e = dict(op="stereo", status="ok" if st == "ok" and y.exists() else "no", ttol=130, rtol=70)
    if e["status"] == "ok":
        t, R, R1, R2, P1, P2 = rig.fs_mats(y, "extrinsics/translation_vector", "extrinsics/rotation_matrix", "left/rectification_matrix", "right/rectification_matrix",
                                           "left/projection_matrix", "right/projection_matrix")
        K1, K2 = rig.fs_mats(y, "left/camera_matrix", "right/camera_matrix")
        # images of the second camera are centred on the format of the first
        wide = rig.W / rig.H
        full = (max(size2[0], size2[1] * wide), max(size2[1], size2[0] / wide))
        sc = rig.W / full[0]
        want = [b.K[0, 0] * sc, b.K[1, 1] * sc, (b.K[0, 2] + (full[0] - size2[0]) / 2) * sc, (b.K[1, 2] + (full[1] - size2[1]) / 2) * sc]
        intr = lambda K: [K[0, 0], K[1, 1], K[0, 2], K[1, 2]]
        e.update(k1=q(intr(K1), 100), k1true=q(intr(a.K), 100), k2=q(intr(K2), 100), k2true=q(want, 100), ktol=[800, 800, 700, 700])
        par = cv2.Rodrigues(R2 @ R @ R1.T)[0]
        bl = R2 @ t
        e.update(t=q(t, 1e4), ttrue=q(b.t, 1e4), r=q(cv2.Rodrigues(R)[0], 1e4), rtrue=q(cv2.Rodrigues(b.R)[0], 1e4), parallel=q([np.abs(par).max()], 1e4)[0],
                 baseline=q([min(np.hypot(bl[0], bl[2]), np.hypot(bl[1], bl[2]))], 1e4)[0])
    evs.append(e)
    logs.append(logs_(note=str(val)[-300:]))
    if e["status"] != "ok":
        shutil.rmtree(root, ignore_errors=True)
        return
    # laser
    st, val, con = call(w, "laser")
    again = rng.random() < .5
    out = []
    for lab, plane in (("top", TOP), ("bottom", BOTTOM))[:2 if two else 1]:
        y = w.out / ("laser_calibration_%s_%s.yaml" % (lab, names[0]))
        ok = st == "ok" and y.exists()
        e = dict(op="laser", status="ok" if ok else "no", least=15, ptrue=q(plane, 1e4), ptol=[1, 250, 250, 400], utol=[1, 900, 600, 1200], planes_wanted=3, per_bin=per_bin, again=[],
                 shots=[[-1 if k in gone[0] else lm.stamp(k, 0), -1 if k in gone[1] else lm.stamp(k, 1), int(k not in dark)] for k in range(m)])
        if ok:
            d = yaml.safe_load(y.read_text())
            pts = ply(w.out / ("points_%s%s.ply" % ("" if lab == "top" else "b_", names[0])))
            rs = ply(w.out / ("points_%srs_%s.ply" % ("" if lab == "top" else "b_", names[0])))
            near = np.abs(pts[:, 2:] - depth[None, :])
            own = near.argmin(1)
            off = (near.min(1) > .09) | (np.abs(pts @ np.array(plane[:3]) + plane[3]) > .06)
            edges = np.linspace(zlo, zhi, 5)
            unsure = bool((np.abs(pts[:, 2:] - edges[None, :]) < 3e-5).any())
            e.update(plane=q(d["mean_plane"], 1e4), planes=[q(p, 1e4) for p in d.get("uncertainty_planes", [])], count=[int(((own == k) & ~off).sum()) for k in range(m)], stray=int(off.sum()), total=len(pts),
                     bins=[] if unsure else [[int(x), int(z)] for x, z in zip(np.histogram(pts[:, 2], edges)[0], np.histogram(rs[:, 2], edges)[0])],
                     outside=int(((rs[:, 2] < zlo - 1e-4) | (rs[:, 2] > zhi + 1e-4)).sum()), kept=int(rs.shape[0]), centre=q(d["mean_xyz_m"], 1e3), cloud=q(rs.mean(0), 1e3))
        evs.append(e)
        logs.append(logs_(laser=lab, depth=depth.tolist(), note=str(val)[-400:]))
        out.append((e, y))
    if again and all(e["status"] == "ok" for e, _ in out):
        st, val, con = call(w, "laser", force=1)
        for e, y in out:
            e2 = dict(e, status="ok" if st == "ok" else "no")
            if st == "ok":
                d = yaml.safe_load(y.read_text())
                e2["again"] = q(d["mean_plane"], 1e4)
            evs.append(e2)
            logs.append(logs_(note="recomputed from the detections " + str(val)[-400:]))
    shutil.rmtree(root, ignore_errors=True)


def yaml_value(y, key):
    return float(next(l.split(":")[1] for l in y.read_text().splitlines() if l.startswith(key)))


def ply(p):
    rows = p.read_text().split("end_header\n")[1].split("\n")
    a = np.array([[float(x) for x in r.split()] for r in rows if r.strip()])
    return a.reshape(-1, 3)


def a02(ctx):
    rng = ctx.rng
    tlc_model(ctx, "CalPairsModel", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS Exact OneToOne\n" % ctx.n(3, 4))
    evs, logs = [], []
    n = ctx.n(9, 120)
    try:
        for k in range(n):
            campaign(ctx, rng, k, evs, logs)
    finally:
        rig.clean(["vrig%d%s" % (k, x) for k in range(n) for x in "AB"])
    bad = tlc_validate(ctx, "TraceRig", evs)
    ctx.cov["traces_validated_against_impl"] += n
    ctx.sample(logs[0])
    ctx.sample(evs[-1])
    for i, why in bad:
        ctx.violation(why, dict(logs[i], observed=evs[i]))


CHECKS = {"A02": a02}
