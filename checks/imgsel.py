"""C01 image and altitude selection of correct_images."""
import shutil
import numpy as np
import imgdive as I
from lib import tlc_model, tlc_validate


def rows(rng, d, cam, base, n, alts, unknown=.1, missing=.1):
    """n images with random constant values, a pose table in random order, some entries unusable"""
    res, vals = [], {}
    for k in range(n):
        id_ = base + k
        name, v = I.image_name(id_, cam), rng.randrange(10, 230)
        there = rng.random() >= missing
        if there:
            d.images[cam].append(dict(name=name, px=np.full((I.H, I.W), v, np.uint8)))
        alt = None if rng.random() < unknown else rng.choice(alts)
        d.tables[cam].append(dict(name=name, alt="None" if alt is None else alt / 1000, t=1577880000.0 + k))
        vals[id_] = v
        res.append(dict(id=id_, alt=-1 if alt is None else alt, there=there, listed=True))
    if not d.images[cam] and n:
        d.tables[cam] = []
        return rows(rng, d, cam, base, n, alts, unknown, 0)
    order = list(range(n))
    rng.shuffle(order)
    d.tables[cam] = [d.tables[cam][i] for i in order]
    return [res[i] for i in order], vals


def pick_list(rng, d, cam, mode, rs):
    if rng.random() < .35:
        keep = [r for r in rs if rng.random() < .7] or rs[:1]
        names = [I.image_name(r["id"], cam) for r in keep]
        rng.shuffle(names)
        d.write_list(cam, mode, names)
        ids = {r["id"] for r in keep}
        return [dict(r, listed=r["id"] in ids) for r in rs]
    return rs


def set_params(d, cam, p):
    f = d.params(cam)
    f.mkdir(parents=True, exist_ok=True)
    at = np.zeros((1, I.H, I.W, 3), np.float32)
    at[..., 0], at[..., 1], at[..., 2] = p["a"] / 64, -np.log(2), p["c"] / 64
    np.save(f / "attenuation_parameters.npy", at)
    np.save(f / "correction_gains.npy", np.full((1, I.H, I.W), p["g"] / 64))
    np.save(f / "image_corrected_mean.npy", np.full((I.H, I.W), p["m"] / 1000, np.float32))
    np.save(f / "image_corrected_std.npy", np.full((I.H, I.W), p["s"] / 1000, np.float32))


def rparams(rng):
    return dict(a=rng.choice([256, 512, 1024]), c=rng.choice([16, 32]), g=rng.choice([16, 24, 32]), m=rng.choice([100, 300]), s=rng.choice([500, 1000]),
                B=rng.choice([20, 30]), C=rng.choice([20, 40]))


def by_name(base, vals, cam):
    return {I.image_name(k, cam): k for k in vals}


def dense(vals):
    """ids renumbered 1..n for the specification"""
    return {k: i + 1 for i, k in enumerate(sorted(vals))}


def finish(ev, vals):
    m = dense(vals)
    ev["vals"] = [vals[k] for k in sorted(vals)]
    fix = lambda rs: [dict(r, id=m.get(r["id"], 0)) for r in rs]
    for k in ("rows", "out", "list"):
        if k in ev:
            ev[k] = fix(ev[k])
    if "dives" in ev:
        ev["dives"] = [fix(x) for x in ev["dives"]]
    return ev


def spread(rng):
    lo = rng.choice([1, 2, 3])
    hi = lo + rng.choice([2, 3, 4])
    return lo, hi


def process_event(ctx, rng):
    import imageio.v2 as iio, pandas as pd
    root = ctx.work / "r"
    cam = rng.choice(["LC", "RC"])
    d = I.ImgDive(root, cams=("LC", "RC") if rng.random() < .3 else (cam,))
    lo, hi = spread(rng)
    d.conf["process"], d.conf["parse"] = (lo, hi), spread(rng)
    evs, keep = [], []
    for c in d.cams:
        n = rng.choice([1, 3, 6, 12])
        rs, vals = rows(rng, d, c, rng.randrange(0, 400), n, [1000 * x for x in range(1, 8)])
        rs = pick_list(rng, d, c, "process", rs)
        if not any(r["there"] and r["listed"] and r["alt"] >= 0 for r in rs):      # refused by the command
            return []
        p = rparams(rng)
        keep.append((c, rs, vals, p))
    d.conf["brightness"], d.conf["contrast"] = keep[0][3]["B"], keep[0][3]["C"]
    for k in keep:
        k[3].update(B=keep[0][3]["B"], C=keep[0][3]["C"])
    d.write()
    if rng.random() < .3:                      # the filter's table is preferred to dead reckoning
        good = d.tables
        d.write_tables("ekf")
        d.tables = {c: [dict(r, alt=rng.choice([1.0, 2.0, 4.0])) for r in t] for c, t in good.items()}
        d.write_tables("dead_reckoning")
        d.tables = good
    for c, rs, vals, p in keep:
        set_params(d, c, p)
    st, val, con = I.process(d, workers=rng.random() < .5)
    for c, rs, vals, p in keep:
        names = by_name(0, vals, c)
        out, lst = [], []
        for f in d.outputs(c):
            for q in sorted(f.glob("*.png")):
                px = iio.imread(q)
                out.append(dict(id=names.get(q.stem, -1), o=int(px[3, 4]) if px.min() == px.max() else -100))
            if (f / "filelist.csv").exists():
                t = pd.read_csv(f / "filelist.csv")
                for _, r in t.iterrows():
                    ok = str(r["raw_relative_path"]) == d.rel(str(r["relative_path"])[:-4])
                    lst.append(dict(id=names.get(str(r["relative_path"])[:-4], -1) if ok else -1, alt=round(float(r["altitude [m]"]) * 1000)))
        evs.append(finish(dict(kind="process", status=st, rows=rs, lo=lo * 1000, hi=hi * 1000, p=p, out=out, list=lst, note=str(val)[-500:]), vals))
    shutil.rmtree(root, ignore_errors=True)
    return evs


def dives_of(rng, root, ndives, per, alts, conf, missing=.1):
    ds, rss, vals = [], [], {}
    base = 0
    for k in range(ndives):
        d = I.ImgDive(root, name="2020010%d_000000_dive" % (k + 1))
        d.conf.update(conf)
        rs, v = rows(rng, d, "LC", base, per(), alts, missing=missing)
        base += 500
        d.listed = pick_list(rng, d, "LC", "parse", rs)
        vals.update(v)
        ds.append(d)
        rss.append(d.listed)
    return ds, rss, vals


def means_event(ctx, rng):
    root = ctx.work / "r"
    lo, hi = spread(rng)
    ds, rss, vals = dives_of(rng, root, rng.choice([1, 1, 2, 3]), lambda: rng.choice([1, 4, 9]), [500 * x for x in range(2, 16)],
                             dict(metric="uniform", parse=(lo, hi), process=spread(rng)))
    if not all(any(r["there"] and r["listed"] and r["alt"] >= 0 for r in rs) for rs in rss):
        return []
    for d in ds:
        d.write()
    st, val, con = I.parse(ds)
    means = []
    for d in ds:
        m = d.npy("LC", "image_raw_mean")
        means.append([] if m is None else [round(float(m[2, 3]) * 256000) if np.ptp(m) < 1e-6 else -1])
    shutil.rmtree(root, ignore_errors=True)
    return [finish(dict(kind="means", status=st, dives=rss, lo=lo * 1000, hi=hi * 1000, means=means, note=str(val)[-500:]), vals)]


def bins_event(ctx, rng):
    root = ctx.work / "r"
    lo, hi = 2, rng.choice([3, 4])
    centres = [int(1000 * x) for x in np.arange(lo, hi, .1) + .05]
    some = rng.sample(centres, 3)
    alts = [a + rng.randrange(-30, 30) for a in some for _ in range(8)] + [1500, 4500]
    n = rng.choice([1, 2])
    ds, rss, vals = dives_of(rng, root, n, lambda: rng.choice([48, 60]) // n, alts, dict(metric="altitude", parse=(lo, hi), smoothing="mean"), missing=.05)
    for d in ds:
        d.write()
    st, val, con = I.parse(ds, workers=rng.random() < .5)
    im, di = ds[-1].npy("LC", "images_map"), ds[-1].npy("LC", "distances_map")
    ok = im is not None and di is not None
    q = lambda x, s: [round(float(v) * s) for v in x]
    shutil.rmtree(root, ignore_errors=True)
    return [finish(dict(kind="bins", status=st, dives=rss, lo=lo * 1000, hi=hi * 1000, img=q(im[:, 5, 0], 256000) if ok else [], dist=q(di[:, 5], 1000) if ok else [],
                        note=str(val)[-500:]), vals)]


def c01(ctx):
    rng = ctx.rng
    tlc_model(ctx, "ImageSelection", "SPECIFICATION Spec\nCONSTANTS Alts = {1, 2, 3}\nMaxRows = 2\nLo = 1\nHi = 3\nINVARIANTS InStep Complete Within\nCHECK_DEADLOCK FALSE\n")
    evs = []
    while len(evs) < ctx.n(70, 900):
        evs += process_event(ctx, rng)
    for _ in range(ctx.n(40, 500)):
        evs += means_event(ctx, rng)
    for _ in range(ctx.n(4, 40)):
        evs += bins_event(ctx, rng)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceSelection", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(kinds={k: sum(e["kind"] == k for e in evs) for k in ("process", "means", "bins")}, images=sum(len(e["vals"]) for e in evs))
    for i, why in bad:
        ctx.violation(why, evs[i])


CHECKS = {"C01": c01}
