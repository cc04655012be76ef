"""A01: command histories of auv_cal."""
import hashlib, os, random, shutil
from pathlib import Path
import numpy as np, cv2, yaml
import imgdive, rig, lib
from lib import tlc_model, tlc_dump, tlc_validate, tree_hash

FOCAL = {1: 400., 2: 386., 3: 372.}
PLANE = {1: (1, .05, -.3, .2), 2: (1, -.03, -.1, -.35), 3: (1, .02, -.42, .62)}
TWO = {1: ((1, .03, -.15, .05), (1, -.02, .15, .1)), 2: ((1, .03, -.05, .05), (1, -.02, .15, .3)), 3: ((1, .03, -.15, -.1), (1, -.02, .25, .1))}   # two lasers
SFX = ("", "x")
BRANCHES = ["raw", "processed", "raw+processed", "processed+raw"]      # where the images of the first + second camera are
N_BOARDS, N_LASER = 12, 8
_memo = {}


def cams(v=1, names=("vcalA", "vcalB", "vcalC")):
    geo = [dict(), dict(R=rig.rot(.03, -.02, .01), t=(.01, -.25, .02)), dict(R=rig.rot(-.02, .01, .02), t=(-.01, -.35, .0))]
    return [rig.Camera(n, f=FOCAL[v] - 20 * i, **g) for i, (n, g) in enumerate(zip(names, geo))]


def smaller(c):
    """the same camera at three quarters of the resolution"""
    return rig.Camera(c.name, f=c.K[0, 0] * .75, c=(c.K[0, 2] * .75, c.K[1, 2] * .75), R=c.R, t=c.t, size=(rig.W * 3 // 4, rig.H * 3 // 4))


def boards(v, i, small=False):
    if small:
        if ("s", v, i) not in _memo:
            boards(v, i)
            poses = rig.board_poses(np.random.default_rng(5), N_BOARDS, [c for w in FOCAL for c in cams(w)])
            _memo["s", v, i] = [cv2.imencode(".png", rig.board_image(smaller(cams(v)[i]), R, t))[1].tobytes() for R, t in poses]
        return _memo["s", v, i]
    if ("b", v, i) not in _memo:
        poses = rig.board_poses(np.random.default_rng(5), N_BOARDS, [c for w in FOCAL for c in cams(w)])
        _memo["b", v, i] = [cv2.imencode(".png", rig.board_image(cams(v)[i], R, t))[1].tobytes() for R, t in poses]
    return _memo["b", v, i]


def lasers(v, i, two=False):
    if ("l", v, i, two) not in _memo:
        rng = np.random.default_rng(6)
        fl = [(np.array([rng.uniform(-.1, .1), rng.uniform(-.1, .1), 1]), d) for d in np.linspace(2, 5, N_LASER)]
        _memo["l", v, i, two] = [cv2.imencode(".png", rig.laser_image(cams(1)[i], TWO[v] if two else [PLANE[v]], f))[1].tobytes() for f in fl]
    return _memo["l", v, i, two]


class World:
    def __init__(self, root, n, branch, small=False, two=False):
        self.small, self.two = small, two
        self.c = rig.Campaign(root, cams()[:n])
        for cam, b in zip(self.c.cams, branch.split("+") * 3):
            self.c.branch[cam.name] = b
        self.ver, self.kind, self.lver, self.lenough = [1] * n, ["good"] * n, 1, True
        self.det, self.detmark = 0, None
        for i in range(n):
            self.put_boards(i)
        for i in range(min(n, 2)):
            self.put_lasers(i)
        self.conf()
        self.root = Path(root)

    def conf(self):
        self.c.write_conf(detection=dict(two_lasers=True, end_row=140, start_row_b=150) if self.two else {})

    def fill(self, i, kind, data):
        f = self.c.folder(self.c.cams[i], kind)
        keep = [p for p in f.glob("*") if p.suffix != ".png"] if f.exists() else []
        for p in f.glob("*.png") if f.exists() else []:
            p.unlink()
        f.mkdir(parents=True, exist_ok=True)
        for k, b in enumerate(data):
            (f / (rig.sx_name(k) + ".png")).write_bytes(b)

    def put_boards(self, i):
        data = boards(self.ver[i], i, self.small and i == 1)
        if self.kind[i] == "few":
            data = data[:7]
        if self.kind[i] == "blank":
            data = [cv2.imencode(".png", np.full((rig.H, rig.W), 90, np.uint8))[1].tobytes()] * N_BOARDS
        self.fill(i, "camera", data)

    def put_lasers(self, i):
        self.fill(i, "laser", lasers(self.lver, i, self.two)[:N_LASER if self.lenough else 7])

    def world(self):
        n = [c.name for c in self.c.cams]
        return dict(ver=dict(zip(n, self.ver)), enough={a: k != "few" for a, k in zip(n, self.kind)}, seen={a: k != "blank" for a, k in zip(n, self.kind)},
                    lver=self.lver, lenough=self.lenough)

    def images(self):
        return {k: v for b in ("raw", "processed", "configuration") for k, v in tree_hash(self.root / b).items()
                if (k.endswith(".png") and "laser_detection" not in k) or b == "configuration" or (b == "raw" and not k.endswith(".txt"))}

    def obs(self):
        o, out = dict(mono={}, json={}, stereo={}, laser={}, marks=[]), self.c.out
        names = [c.name for c in self.c.cams]
        nearest = lambda K, i: next((v for v in FOCAL if abs(K - (FOCAL[v] - 20 * i)) < 5), -1)
        mark = lambda p: hashlib.sha1(p.read_bytes()).hexdigest()[:10]
        for s in SFX:
            t = "_" + s if s else ""
            o["mono"][s], o["json"][s] = {}, {}
            for i, n in enumerate(names):
                y, j = out / ("mono_%s%s.yaml" % (n, t)), out / ("mono_%s%s.json" % (n, t))
                o["mono"][s][n] = nearest(rig.fs_mats(y, "camera_matrix")[0][0, 0] / (.75 if self.small and i == 1 else 1), i) if y.exists() else 0
                o["json"][s][n] = self.corners(j, i) if j.exists() else 0
                if y.exists():
                    o["marks"].append(["mono", s, n, mark(y)])
            fs = [out / ("stereo_%s_%s%s.yaml" % (names[a], names[b], t)) for a, b in [(0, 1), (0, 2), (2, 0)] if max(a, b) < len(names)]
            have = [f for f in fs if f.exists()]
            o["stereo"][s] = []
            if have:
                o["stereo"][s] = [nearest(rig.fs_mats(fs[0], side + "/camera_matrix")[0][0, 0], i) for i, side in enumerate(("left", "right"))] if fs[0].exists() else [-1, -1]
                if len(fs) > 1:
                    third = [nearest(rig.fs_mats(f, side + "/camera_matrix")[0][0, 0], 2) if f.exists() else -1 for f, side in ((fs[1], "right"), (fs[2], "left"))]
                    o["stereo"][s].append(third[0] if third[0] == third[1] else -1)
                o["marks"].append(["stereo", s, "", "".join(map(mark, have))])
            y = out / ("laser_calibration_top_%s%s.yaml" % (names[0], t))
            o["laser"][s] = 0
            both = [y, out / ("laser_calibration_bottom_%s%s.yaml" % (names[0], t))]
            if any(f.exists() for f in both):
                o["laser"][s] = self.planes(both)
                o["marks"].append(["laser", s, "", "".join(mark(f) for f in both if f.exists())])
        d = sorted(p for p in (self.root / "processed").rglob("*.txt"))
        m = "".join(map(mark, d))
        if m != self.detmark:
            self.det = self.lver if d else 0
        self.detmark = m
        o["det"] = self.det
        return o

    def planes(self, files):
        """version of the lasers in the files, -1 if they disagree"""
        if self.two != files[1].exists() or not files[0].exists():
            return -1
        got = [yaml.safe_load(f.read_text())["mean_plane"] for f in files[:1 + self.two]]
        true = lambda v: TWO[v] if self.two else [PLANE[v]]
        return next((v for v in PLANE if max(abs(a - b) for p, r in zip(got, true(v)) for a, b in zip(p, r)) < .05), -1)

    def corners(self, j, i):
        """version of the detections in a json: the size of the board in the first image tells"""
        import json
        try:
            d = {Path(x["file"]).stem: x["corners"] for x in json.loads(j.read_text())}
        except ValueError:
            return -1
        k = sorted(d)[0]
        got = np.array(d[k]).reshape(-1, 2)
        got = np.linalg.norm(got[0] - got[-1]) / (.75 if self.small and i == 1 else 1)
        for v in FOCAL:
            key = ("c", v, i, k)
            if key not in _memo:
                img = cv2.imdecode(np.frombuffer(boards(v, i)[int(k) - 1000], np.uint8), cv2.IMREAD_GRAYSCALE)
                c = cv2.findChessboardCorners(img, (rig.COLS, rig.ROWS))[1].reshape(-1, 2)
                _memo[key] = np.linalg.norm(c[0] - c[-1])
            if abs(_memo[key] - got) < .015 * got:
                return v
        return -1


def command(w, op, force, sfx):
    w.c.out.mkdir(parents=True, exist_ok=True)
    with imgdive.calm():
        return lib.cli("auv_cal", op, w.c.out, *[[], ["-F"], ["-FF"]][force], *(["-s", sfx] if sfx else []), *(["-u", 2] if op == "laser" else []))


def replay(ctx, hist, n, branch, evs, logs, rng):
    root = ctx.work / ("h%d" % rng.randrange(1 << 40))
    w = World(root, n, branch.split()[0], "small" in branch, "two" in branch)
    names = [c.name for c in w.c.cams]
    evs.append(dict(op="start", obs=w.obs()))
    logs.append(None)
    for e in hist:
        ev, note = dict(op="env"), ""
        if e[0] == "images" and e[1] < n:
            w.ver[e[1]], w.kind[e[1]] = min(3, w.ver[e[1]] + 1), e[2] if n < 3 else "good"
            w.put_boards(e[1])
        elif e[0] == "lasers":
            w.lver, w.lenough = min(3, w.lver + 1), e[1] != "few"
            for i in range(2):
                w.put_lasers(i)
        elif e[0] == "lose":
            fs = sorted(w.c.out.glob("mono*.json" if e[1] == "json" else e[1] + "_*.yaml")) if w.c.out.exists() else []
            for p in ([rng.choice(fs if n < 3 else fs[:1])] if fs and e[1] not in ("stereo", "laser") else fs):
                p.unlink()
        elif e[0] == "noconf":
            w.c.cfg.unlink()
            before = w.images()
            st, val, con = command(w, e[1], 0, "")
            ref = lib.SRC / "auv_cal/default_yaml/default_calibration.yaml"
            made = w.c.cfg.exists() and w.c.cfg.read_bytes() == ref.read_bytes()
            w.c.cfg.unlink(missing_ok=True)
            ev = dict(op="noconf", status=st, default=made, inputs=w.images() == before)
            w.conf()
        elif e[0] in ("mono", "stereo", "laser"):
            before = w.images()
            st, val, con = command(w, e[0], e[1], e[2])
            note = str(val)[-600:]
            ev = dict(op=e[0], force=e[1], sfx=e[2], status=st, world=w.world(), cams=names, inputs=w.images() == before)
        ev["obs"] = w.obs()
        evs.append(ev)
        logs.append(dict(history=hist, cameras=n, images=branch, event=e, outcome={k: v for k, v in ev.items() if k != "world"}, note=note))
    shutil.rmtree(root, ignore_errors=True)


def rand_hist(rng, k):
    h = []
    for _ in range(k):
        r = rng.random()
        if r < .72:
            h.append([rng.choice(["mono", "stereo", "laser"]), rng.choice([0, 0, 1, 2]), rng.choice(["", "", "x"])])
        elif r < .82:
            h.append(["images", rng.randrange(3), rng.choice(["good", "good", "few", "blank"])])
        elif r < .9:
            h.append(["lasers", rng.choice(["good", "good", "few"])])
        else:
            h.append(["lose", rng.choice(["json", "mono", "stereo", "laser"])])
    return h


def a01(ctx):
    rng = ctx.rng
    tlc_model(ctx, "MCCal", "SPECIFICATION Spec\nCONSTANTS MaxCmds = %d\nINVARIANTS Suffixes Grounded\nPROPERTIES Protected Fresh\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 5))
    hists = tlc_dump(ctx, "GenCal", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    ctx.notes["histories_enumerated"] = len(hists)
    rng.shuffle(hists)
    todo = [(h, 2, rng.choice(BRANCHES)) for h in hists[:ctx.n(14, 260)]]
    todo += [(rand_hist(rng, 6), rng.choice([2, 2, 3]), rng.choice(BRANCHES)) for _ in range(ctx.n(6, 120))]
    todo += [([["noconf", op], ["mono", 0, ""], ["noconf", op]], 2, "processed") for op in ("mono", "stereo", "laser")]
    for b in ("raw", "processed"):
        todo += [([["laser", 0, ""], ["lasers", "good"], ["laser", 1, ""], ["laser", 2, "x"], ["laser", 0, ""]], 2, b),
                 ([["stereo", 0, ""], ["images", 0, "good"], ["mono", 1, ""], ["stereo", 1, "x"], ["mono", 2, ""], ["stereo", 1, ""]], 3, b),
                 ([["images", 1, "blank"], ["mono", 0, ""], ["stereo", 0, ""], ["images", 1, "good"], ["stereo", 0, ""]], 2, b)]
    todo += [([["laser", 0, ""], ["lasers", "good"], ["laser", 0, "x"], ["laser", 2, "x"], ["laser", 1, ""], ["lose", "laser"], ["laser", 2, ""]], 2, rng.choice(BRANCHES) + " two")]
    for b in ("raw small", "processed small"):      # the second camera has fewer pixels; its images are taken together with new detections
        todo += [([["stereo", 0, ""], ["images", 1, "good"], ["mono", 2, ""], ["stereo", rng.choice([1, 2]), rng.choice(["", "x"])], ["images", 0, "good"], ["mono", 2, ""], ["mono", 1, ""], ["stereo", 1, ""]], 2, b)]
    evs, logs = [], []
    try:
        for h, n, b in todo:
            replay(ctx, h, n, b, evs, logs, rng)
    finally:
        rig.clean([c.name for c in cams()])
    ctx.sample(todo[0])
    bad = tlc_validate(ctx, "TraceCal", evs, chunk=10 ** 9)
    ctx.cov["traces_validated_against_impl"] += len(todo)
    ctx.notes["commands_replayed"] = sum(1 for e in evs if e["op"] in ("mono", "stereo", "laser"))
    for i, why in bad:
        ctx.violation(why, logs[i])


CHECKS = {"A01": a01}
