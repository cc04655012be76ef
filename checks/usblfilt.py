"""N12 acoustic fix filter."""
import shutil
import dive as D, navgen as V, renav as R
from lib import tlc_model, tlc_validate


def world(rng):
    d = V.gen(rng, span=rng.choice([5000, 9000, 20000]))
    span = d.ori[-1]["t"] + rng.choice([-2000, 0, 3000])
    for x in d.dep:
        x["y"] = x["y"] // 100 * 100           # whole centimetres
        x["s"] = rng.choice([1, 5, 50, 200]) / 100
    v = rng.choice([0, 50, 100, 300])          # cm/s
    n, e = rng.randrange(-300, 300) * 10, rng.randrange(-300, 300) * 10
    t = -3000
    d.usbl = []
    u_sd = rng.choice([10, 100, 300])
    out = rng.choice([0, .1, .3])
    hop = rng.choice([0, 0, 10, 18, 27])
    moves = rng.choice([(3, 4), (3,), (2, 3, 4)])
    if hop:
        t, out = -1200, 0
    base = lambda q: min(d.dep, key=lambda x: abs(x["t"] - q))["y"] // 100
    while t < span + 3500 and len(d.usbl) < 24:
        a, b = n, e
        y = base(t) + rng.randrange(-2, 3) * 10
        if rng.random() < out:
            a += rng.choice([-1, 1]) * rng.choice([50, 300, 4000])
        if rng.random() < out / 2:
            y += rng.choice([-1, 1]) * rng.choice([100, 900, 5000])
        k = rng.choice([1, 1, 4, 20]) if not hop else 1
        d.usbl.append(dict(t=t, n=a * 100, e=b * 100, d=max(0, y) * 100, sne=(3 * k / 100, 4 * k / 100), r=5 * k, sd=u_sd / 100))
        dt = rng.choice([100, 500, 1000, 2500] if not hop else [100, 100, 100, 500])
        if hop:                            # stands still, then moves on a little less or more than a neighbour may
            n += (len(d.usbl) % 6 in moves) * hop
        else:
            n += v * dt // 1000 // 10 * 10
        e += rng.randrange(-1, 2) * 10
        t += dt
    if rng.random() < .4:                  # fixes exactly a second inside the depth record
        d.dep[0]["t"] = d.dep[0]["t"] // 500 * 500
        d.dep[-1]["t"] = -(-d.dep[-1]["t"] // 500) * 500
        for q in rng.sample([d.dep[0]["t"] + 1000, d.dep[-1]["t"] - 1000], rng.choice([1, 2])):
            u = min(d.usbl, key=lambda u: abs(u["t"] - q))
            u.update(t=q, d=max(0, base(q)) * 100)
        d.usbl = sorted({u["t"]: u for u in d.usbl}.values(), key=lambda u: u["t"])
    return d


def n12(ctx):
    rng = ctx.rng
    tlc_model(ctx, "FilterModel", "SPECIFICATION Spec\nCONSTANTS N = %d\nM = %d\nINVARIANTS Exact Steady Local\nCHECK_DEADLOCK FALSE\n" % ctx.n((7, 3), (8, 4)))
    evs, dropped, close = [], 0, 0
    while len(evs) < ctx.n(110, 1200):
        d = world(rng)
        if not V.enough(d):
            continue
        sigma, speed = rng.choice([1, 2, 3]), rng.choice([10, 10, 50, 100, 200])
        dep, lat = rng.random() < .75, rng.random() < .75
        m = D.mission_dict()
        if not dep or rng.random() < .5:
            m["usbl"]["apply_depth_filter"] = dep
        if not lat or rng.random() < .5:
            m["usbl"]["apply_north_east_filter"] = lat
        d.mission = m
        ev = dict(c=dict(sigma=sigma, speed=speed, depth=dep, lateral=lat), dep=[dict(t=x["t"], y=x["y"] // 100, s=round(x["s"] * 100)) for x in d.dep],
                  fixes=[dict(t=u["t"], n=u["n"] // 100, e=u["e"] // 100, s=u["r"], d=u["d"] // 100, sd=round(u["sd"] * 100)) for u in d.usbl])
        if tie(ev):
            close += 1
            continue
        root = ctx.work / "r"
        raw, proc, _ = d.build(root, D.auv_nav_dict(csv=True, usbl_filter=True, sigma=float(sigma), max_speed=speed / 100))
        st, val, con = V.run(raw)
        rows = [dict(t=V.ms(r["Timestamp"]), n=V.num(r["Northing [m]"], 100), e=V.num(r["Easting [m]"], 100), d=V.num(r["Depth [m]"], 100)) for r in V.table(proc, "auv_usbl") or []]
        evs.append(dict(ev, status=st, rows=rows, centre=R.poses(proc, "auv_dr_centre"), note=str(val)[-400:]))
        dropped += len(d.usbl) - len(rows)
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceUsblFilter", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(fixes=sum(len(e["fixes"]) for e in evs), removed=dropped, ties_skipped=close)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["sets of fixes with one exactly on a limit are not judged"]


def tie(ev):
    """a fix within a centimetre of a limit"""
    c, dep, us = ev["c"], ev["dep"], ev["fixes"]
    for u in us:
        for a, b in zip(dep, dep[1:]):
            if a["t"] <= u["t"] <= b["t"]:
                w = (u["t"] - a["t"]) / (b["t"] - a["t"])
                g = abs(u["d"] - a["y"] - w * (b["y"] - a["y"])) - c["sigma"] * (u["sd"] + a["s"] + w * (b["s"] - a["s"]))
                if abs(g) < 5:
                    return True
        for g, q in ((u["t"] - dep[0]["t"] - 1000, dep[0]["t"]), (u["t"] + 1000 - dep[-1]["t"], dep[-1]["t"])):
            if abs(g) < 2 and (q % 125 or u["t"] % 125):   # not exact in binary
                return True
        for v in us:
            if v is not u and abs(v["t"] - u["t"]) < 20000:
                d = ((u["n"] - v["n"]) ** 2 + (u["e"] - v["e"]) ** 2) ** .5
                if abs(d - c["sigma"] * (u["s"] + v["s"] + abs(u["t"] - v["t"]) * c["speed"] / 1000)) < .01:
                    return True
    return False


CHECKS = {"N12": n12}
