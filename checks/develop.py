"""C04 development of images."""
import shutil
import numpy as np
import imgdive as I
from lib import tlc_model, tlc_validate

BAYER = {"rggb": "RGGB", "grbg": "GRBG", "bggr": "BGGR", "gbrg": "GBRG"}
CH = {"R": 0, "G": 1, "B": 2}


def colour_at(kind, y, x):
    return BAYER[kind][2 * (y % 2) + x % 2]


def xviii_bytes(val):
    """24 bit values, big endian, every 32 bit word reversed"""
    v = val.astype(np.uint32).ravel()
    b = np.stack([v >> 16 & 255, v >> 8 & 255, v & 255], 1).astype(np.uint8).ravel()
    return b.reshape(-1, 4)[:, ::-1].tobytes()


def calibration(d, cam, h, w):
    """camera turned half way round its axis"""
    k = lambda m: "[" + ", ".join("%f" % x for x in m) + "]"
    f = d.proc.parent / "calibration"
    f.mkdir(parents=True, exist_ok=True)
    mat = lambda n, r, c, m: "%s: !!opencv-matrix\n  rows: %d\n  cols: %d\n  dt: d\n  data: %s\n" % (n, r, c, k(m))
    (f / ("mono_%s.yaml" % cam)).write_text(
        "%%YAML:1.0\nimage_width: %d\nimage_height: %d\ncamera_name: %s\n" % (w, h, cam)
        + mat("camera_matrix", 3, 3, [20, 0, (w - 1) / 2, 0, 20, (h - 1) / 2, 0, 0, 1]) + mat("distortion_coefficients", 1, 5, [0] * 5)
        + mat("rectification_matrix", 3, 3, [-1, 0, 0, 0, -1, 0, 0, 0, 1]) + mat("projection_matrix", 3, 4, [20, 0, 5, 0, 0, 20, 5, 0, 0, 0, 1, 0]))


def run(ctx, rng, xviii=False):
    import imageio.v2 as iio
    root = ctx.work / "r"
    kind = "grbg" if xviii else rng.choice(["grayscale", "grayscale", "rgb", "bgr", "rggb", "grbg", "bggr", "gbrg"])
    mode = rng.choice(["altitude", "depth_map", "uniform", "manual"]) if not xviii else "altitude"
    bits = 18 if xviii else rng.choice([8, 8, 12, 16]) if kind not in ("rgb", "bgr") else 8
    flat = kind in BAYER
    turn = rng.random() < .25 and not flat and mode != "manual"
    h, w = (1024, 1280) if xviii else (10, 12)
    d = I.ImgDive(root, kind=kind, bits=bits, ext="raw" if xviii else rng.choice(["png", "tif"]))
    d.conf.update(method="manual_balance" if mode == "manual" else "colour_correction", metric="altitude" if mode == "manual" else mode, process=(0, 8),
                  brightness=rng.choice([20, 30, 45]), contrast=rng.choice([10, 20, 40]), undistort=turn, comp=rng.choice(["png", "tif"]))
    nch = 3 if kind in ("rgb", "bgr") else 1
    imgs = []
    for k in range(1 if xviii else 3):
        if flat:
            v = {c: rng.randrange(20, 240) for c in "RGB"}
            px = np.array([[v[colour_at(kind, y, x)] for x in range(2)] for y in range(2)])
            px = np.tile(px, (h // 2, w // 2))
        else:
            px = np.array([[[rng.randrange(20, 240) for _ in range(nch)] for _ in range(w)] for _ in range(h)])
            if turn:       # blocks, so that sub-pixel resampling does not matter
                q = np.array([[[rng.randrange(20, 240) for _ in range(nch)] for _ in range(2)] for _ in range(2)])
                px = np.kron(q, np.ones((h // 2, w // 2, 1), int))
            px = px if nch == 3 else px[:, :, 0]
        name = I.image_name(rng.randrange(1000) * 3 + k)
        imgs.append(dict(name=name, v=px, alt=rng.randrange(1, 7)))
        if not xviii:
            d.images["LC"].append(dict(name=name, px=px.astype(np.uint8) if bits == 8 else (px * 256).astype(np.uint16)))
        d.tables["LC"].append(dict(name=name, alt=float(imgs[-1]["alt"]), t=1.0 + k))
    rnd = lambda vals: rng.choice(vals) * np.ones((nch, h, w), int) if flat or turn else np.array([[[rng.choice(vals) for _ in range(w)] for _ in range(h)] for _ in range(nch)])
    P = dict(a=rnd([128, 512, 1024]), c=rnd([16, 32]), g=rnd([16, 24, 32]), m=rnd([100, 200, 300]), s=rnd([500, 1000]))
    gain = [[rng.choice([5, 10, 13]) if i == j else rng.choice([0, 0, 2]) for j in range(3)] for i in range(3)]
    sub = [rng.choice([0, 5, 10]) for _ in range(3)]
    d.conf.update(gain=[[x / 10 for x in r] for r in gain], sub=[x / 100 for x in sub])
    if d.kind == "grayscale" and rng.random() < .5:      # a monochrome camera needs one value only
        d.conf.update(gain=[[gain[0][0] / 10]], sub=[sub[0] / 100])
    d.write()
    if xviii:
        for im in imgs:
            (d.raw / d.rel(im["name"])).write_bytes(xviii_bytes(im["v"] * 1024))
    if turn:
        calibration(d, "LC", h, w)
    f = d.params("LC")
    f.mkdir(parents=True, exist_ok=True)
    at = np.zeros((nch, h, w, 3), np.float32)
    at[..., 0], at[..., 1], at[..., 2] = P["a"] / 64, -np.log(2), P["c"] / 64
    hwc = lambda a: (a.transpose(1, 2, 0) if nch == 3 else a[0]).astype(np.float32)
    np.save(f / "attenuation_parameters.npy", at)
    np.save(f / "correction_gains.npy", P["g"] / 64)
    sfx = "raw" if mode == "uniform" else "corrected"
    np.save(f / ("image_%s_mean.npy" % sfx), hwc(P["m"] / 1000))
    np.save(f / ("image_%s_std.npy" % sfx), hwc(P["s"] / 1000))
    for im in imgs:
        im["d"] = np.full((h, w), im["alt"])
        if mode == "depth_map":
            im["d"] = rng.randrange(1, 7) * np.ones((h, w), int) if flat or turn else np.array([[rng.randrange(1, 7) for _ in range(w)] for _ in range(h)])
            p = d.proc / "3d_reconstruction/depth_maps/gp_smoothed" / d.folder / (im["name"] + "_depthmap.npy")
            p.parent.mkdir(parents=True, exist_ok=True)
            np.save(p, im["d"].astype(np.float32))
    st, val, con = I.process(d)
    outs = d.outputs("LC")
    files = sorted(p.name for o in outs for p in o.iterdir() if p.suffix != ".csv")
    ev = dict(status=st, want=sorted(im["name"] + "." + d.conf["comp"] for im in imgs), got=files, shape=True, samples=[], note=str(val)[-600:],
              setting=dict(kind=kind, mode=mode, bits=bits, turn=turn, h=h))
    gray = kind == "grayscale"
    for im in imgs:
        p = outs[0] / (im["name"] + "." + d.conf["comp"]) if outs else None
        if p is None or not p.exists():
            continue
        out = iio.imread(p)
        if out.shape != ((h, w) if gray else (h, w, 3)):
            ev["shape"] = False
            continue
        for _ in range(14):
            y, x = rng.randrange(3, h - 3), rng.randrange(3, w - 3)
            if turn:
                y, x = rng.choice([1, 2, h - 3, h - 2]), rng.choice([1, 2, w - 3, w - 2])
            yy, xx = (h - 1 - y, w - 1 - x) if turn else (y, x)
            ch = 0 if gray else rng.randrange(3)
            o = int(out[y, x] if gray else out[y, x, ch])
            if mode == "manual":
                if gray:
                    b = dict(v=[int(im["v"][y, x]), 0, 0], k=[gain[0][0], 0, 0], s=[sub[0], 0, 0])
                else:
                    vs = [v[c] for c in "RGB"] if flat and im is imgs[-1] else None
                    if flat:
                        vs = [int(im["v"][[(i, j) for i in range(2) for j in range(2) if colour_at(kind, i, j) == c][0]]) for c in "RGB"]
                    else:
                        vs = [int(im["v"][y, x, i if kind == "rgb" else 2 - i]) for i in range(3)]
                    b = dict(v=vs, k=gain[ch], s=sub)
                ev["samples"].append(dict(mode="manual", p=b, o=o))
                continue
            if flat:
                i, j = [(i, j) for i in range(2) for j in range(2) if colour_at(kind, i, j) == "RGB"[ch]][0]
                v, c = int(im["v"][i, j]), 0
            else:
                c = 0 if gray else ch if kind == "rgb" else 2 - ch
                v = int(im["v"][yy, xx] if gray else im["v"][yy, xx, c])
            q = {k: int(a[c, yy, xx]) for k, a in P.items()}
            ev["samples"].append(dict(mode="uniform" if mode == "uniform" else "attenuation",
                                      p=dict(q, v=v, d=int(im["d"][yy, xx]), B=d.conf["brightness"], C=d.conf["contrast"]), o=o))
    shutil.rmtree(root, ignore_errors=True)
    return ev


def c04(ctx):
    rng = ctx.rng
    tlc_model(ctx, "DevelopModel", "SPECIFICATION Spec\nINVARIANTS Brighter Range\nCHECK_DEADLOCK FALSE\n")
    evs = [run(ctx, rng) for _ in range(ctx.n(110, 1500))] + [run(ctx, rng, True) for _ in range(ctx.n(1, 6))]
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceDevelop", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(pixels=sum(len(e["samples"]) for e in evs))
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["levels within 3 of 255", "debayering judged on images with one value per colour"]


CHECKS = {"C04": c04}
