"""C03 statistics of image sets (correct_images parse)."""
import shutil
import numpy as np
import imgdive as I
from lib import tlc_model, tlc_validate


def world(rng, root, metric, how, kind, n, alts):
    d = I.ImgDive(root, kind=kind, bits=rng.choice([8, 16]) if kind != "rgb" else 8)
    d.conf.update(metric=metric, smoothing=how, parse=(2, 3))
    shape = (I.H, I.W) + ((3,) if kind == "rgb" else ())
    imgs = []
    for k in range(n):
        lo, hi = rng.choice([(10, 120), (60, 80), (20, 160)])
        px = np.array([rng.randrange(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape)
        name = I.image_name(k * 3)
        alt = alts[k % len(alts)] if rng.random() < .9 else rng.choice(alts)
        imgs.append(dict(name=name, px=px, alt=alt))
    rng.shuffle(imgs)
    for k, im in enumerate(imgs):
        d.images["LC"].append(dict(name=im["name"], px=im["px"].astype(np.uint8) if d.bits == 8 else (im["px"] * 256).astype(np.uint16)))
        d.tables["LC"].append(dict(name=im["name"], alt=im["alt"] / 1000, t=float(k)))
    d.write()
    return d, imgs


def raw_event(ctx, rng):
    root = ctx.work / "r"
    n = rng.choice([3, 4, 7, 12, 25])
    d, imgs = world(rng, root, "uniform", "mean", rng.choice(["grayscale", "rgb", "rggb"]), n, [2500])
    st, val, con = I.parse([d])
    m, s = d.npy("LC", "image_raw_mean"), d.npy("LC", "image_raw_std")
    ok = m is not None and s is not None and m.shape == s.shape == imgs[0]["px"].shape
    px = []
    for _ in range(8 if ok else 0):
        i = tuple(rng.randrange(x) for x in m.shape)
        px.append(dict(v=[int(im["px"][i]) for im in imgs], m=round(float(m[i]) * 256000), s=round(float(s[i]) * 2560)))
    shutil.rmtree(root, ignore_errors=True)
    return dict(status=st, stored=ok, px=px, bins=[], how="mean", scale=1000, note=str(val)[-500:])


def bin_event(ctx, rng):
    root = ctx.work / "r"
    metric, how, kind = rng.choice(["altitude", "altitude", "depth_map"]), rng.choice(["mean", "median", "mean_trimmed"]), rng.choice(["grayscale", "rggb", "rgb"])
    n = rng.choice([33, 41, 52])
    alts = [2130, 2480, 2860]
    d, imgs = world(rng, root, metric, how, kind, n, alts)
    if metric == "depth_map":
        for im in imgs:
            base = im["alt"]                     # mean stays in the bin: changes of a pixel are made up for by another
            q = np.full(I.H * I.W, base)
            idx = list(range(I.H * I.W))
            rng.shuffle(idx)
            for a, b in zip(idx[0::2], idx[1::2]):
                e = rng.randrange(0, 700)
                q[a], q[b] = base - e, base + e
            if rng.random() < .4:
                q[idx[0]], q[idx[1]] = 0, 2 * base
            im["d"] = q.reshape(I.H, I.W)
            p = d.proc / "3d_reconstruction/depth_maps/gp_smoothed" / d.folder / (im["name"] + "_depthmap.npy")
            p.parent.mkdir(parents=True, exist_ok=True)
            np.save(p, im["d"] / 1000)
    st, val, con = I.parse([d], workers=rng.random() < .5)
    L = lambda nm: d.npy("LC", nm)
    im_, di = L("images_map"), L("distances_map")
    at, g, m, s = L("attenuation_parameters"), L("correction_gains"), L("image_corrected_mean"), L("image_corrected_std")
    ok = all(x is not None for x in (im_, di, at, g, m, s)) and len(im_) == 10
    bins, px = [], []
    if ok:
        nch = 3 if kind == "rgb" else 1
        for b in range(10):
            mine = [im for im in imgs if (im["alt"] - 2000) // 100 == b]
            if len(mine) < 10:
                continue
            for _ in range(6):
                y, x, c = rng.randrange(I.H), rng.randrange(I.W), rng.randrange(nch)
                i = y * I.W + x
                bins.append(dict(v=[int(im["px"][y, x] if nch == 1 else im["px"][y, x, c]) for im in mine], m=round(float(im_[b, i, c]) * 256000) if np.isfinite(im_[b, i, c]) else -1,
                                 d=[int(im["d"][y, x]) if metric == "depth_map" else im["alt"] for im in mine], dm=round(float(di[b, i]) * 1000)))
        m, s = np.asarray(m).reshape(I.H, I.W, nch), np.asarray(s).reshape(I.H, I.W, nch)
        for _ in range(10):
            y, x, c = rng.randrange(I.H), rng.randrange(I.W), rng.randrange(nch)
            vs = []
            for im in imgs:
                dist = (im["d"][y, x] if metric == "depth_map" else im["alt"]) / 1000
                v = (im["px"][y, x] if nch == 1 else im["px"][y, x, c]) / 256
                vs.append(g[c, y, x] / (at[c, y, x, 0] * np.exp(at[c, y, x, 1] * dist) + at[c, y, x, 2]) * v)
            if max(vs) > .94 or not np.all(np.isfinite(vs)):
                continue
            px.append(dict(v=[round(float(v) * 1000) for v in vs], m=round(float(m[y, x, c]) * 1000), s=round(float(s[y, x, c]) * 10000)))
    shutil.rmtree(root, ignore_errors=True)
    return dict(status=st, stored=ok, px=px, bins=bins, how=how, scale=1, note=str(val)[-500:], setting=dict(metric=metric, how=how, kind=kind))


def c03(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Stats", "SPECIFICATION Spec\nCONSTANTS Vals = {0, 1, 3, 7}\nMaxN = %d\nINVARIANTS Exact OrderFree CentreFree\nCHECK_DEADLOCK FALSE\n" % ctx.n(5, 7))
    evs = [raw_event(ctx, rng) for _ in range(ctx.n(20, 400))] + [bin_event(ctx, rng) for _ in range(ctx.n(6, 90))]
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceStats", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(pixels=sum(len(e["px"]) + len(e["bins"]) for e in evs), corrected=sum(len(e["px"]) for e in evs if "setting" in e))
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["no saturated pixels (above 0.95 of full scale)"]


def fit_event(ctx, rng):
    """a scene that fades exponentially; bins are symmetric about `mid', so the mean distance is known"""
    root = ctx.work / "r"
    metric, how, kind = rng.choice(["altitude", "depth_map"]), rng.choice(["mean", "median", "mean_trimmed"]), rng.choice(["grayscale", "rggb", "rgb", "bgr"])
    nch = 3 if kind in ("rgb", "bgr") else 1
    d = I.ImgDive(root, kind=kind, bits=16 if nch == 1 else 8)
    mid = rng.randrange(8, 12)
    d.conf.update(metric=metric, smoothing=how, parse=(2, 4))
    counts = {k: 0 for k in range(0, 20)}
    for e in rng.sample(range(0, min(mid, 19 - mid) - 1), 3) + [min(mid, 19 - mid) - 1]:
        n = rng.choice([10, 10, 11, 12])
        counts[mid + e] = counts[mid - e] = n
    for e in range(min(mid, 19 - mid)):
        if not counts[mid + e] and rng.random() < .4:      # a few images, too few to be used, still count for the mean
            counts[mid + e] = counts[mid - e] = rng.choice([1, 4, 9])
    a = np.array([[[rng.randrange(2500, 6500) for _ in range(nch)] for _ in range(I.W)] for _ in range(I.H)])
    c = np.array([[[rng.randrange(200, 1500) for _ in range(nch)] for _ in range(I.W)] for _ in range(I.H)])
    off = np.zeros(I.H * I.W, int)
    if metric == "depth_map":
        idx = list(range(I.H * I.W))
        rng.shuffle(idx)
        off[idx[:30]], off[idx[30:60]] = 1, -1
    off = off.reshape(I.H, I.W)
    full = 65536 if d.bits == 16 else 256
    todo = [k for k, n in counts.items() for _ in range(n)]
    rng.shuffle(todo)
    for j, k in enumerate(todo):
        dist = k + .5 + off
        v = (a * 2. ** (-dist / 10)[:, :, None] + c) / 10000 * full
        v = np.floor(v + (.5 if d.bits == 16 else np.array([rng.random() for _ in range(v.size)]).reshape(v.shape)))   # 8 bit images are dithered
        name = I.image_name(j * 3)
        v = v.astype(np.uint16 if d.bits == 16 else np.uint8)
        d.images["LC"].append(dict(name=name, px=v if nch == 3 else v[:, :, 0]))
        d.tables["LC"].append(dict(name=name, alt=2.05 + k / 10, t=float(j)))
        if metric == "depth_map":
            p = d.proc / "3d_reconstruction/depth_maps/gp_smoothed" / d.folder / (name + "_depthmap.npy")
            p.parent.mkdir(parents=True, exist_ok=True)
            np.save(p, 2 + dist / 10)
    if kind == "bgr":
        pass
    d.write()
    st, val, con = I.parse([d], workers=rng.random() < .5)
    at, g = d.npy("LC", "attenuation_parameters"), d.npy("LC", "correction_gains")
    ok = at is not None and g is not None and at.shape == (nch, I.H, I.W, 3) and g.shape == (nch, I.H, I.W)
    px = []
    # half a tenth of a metre deeper than the specification's grid: fold it into the light
    h = 2 ** -.05
    used = [k for k, n in counts.items() if n >= 10]
    for _ in range(40 if ok else 0):
        y, x, q = rng.randrange(I.H), rng.randrange(I.W), rng.randrange(nch)
        ks = [max(0, k + int(off[y, x])) for k in range(min(used), max(used) + 1)]
        f = lambda k: at[q, y, x, 0] * np.exp(at[q, y, x, 1] * (2.05 + k / 10)) + at[q, y, x, 2]
        i = lambda z: round(float(z) * 10000) if np.isfinite(z) and abs(z) < 1000 else -1
        px.append(dict(a=round(a[y, x, q] * h), c=int(c[y, x, q]), at=ks, fit=[i(f(k)) for k in ks], g=i(g[q, y, x]), falling=bool(at[q, y, x, 1] <= 0 and at[q, y, x, 2] >= 0)))
    shutil.rmtree(root, ignore_errors=True)
    return dict(status=st, stored=bool(ok), px=px, target=mid, note=str(val)[-500:], setting=dict(metric=metric, how=how, kind=kind, counts=counts))


def c05(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Attenuation", "SPECIFICATION Spec\nCONSTANTS Lights = {%s}\nBacks = {0, 200, 1500}\nDepths = 20\nINVARIANTS Halves Flat\nPROPERTY Darker\nCHECK_DEADLOCK FALSE\n" % ", ".join(str(x) for x in range(2500, 6501, ctx.n(500, 50))))
    evs = [fit_event(ctx, rng) for _ in range(ctx.n(10, 150))]
    ctx.sample({k: v for k, v in evs[0].items() if k != "px"})
    bad = tlc_validate(ctx, "TraceAttenuation", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(pixels=sum(len(e["px"]) for e in evs))
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["scenes that fade exponentially with the distance; fit judged within half a percent plus 0.002 of full scale"]


CHECKS = {"C03": c03, "C05": c05}
