"""N23: uncertainties follow the configured model and travel with the poses."""
import shutil
import lib, dive as D, navgen as V
from ekfrun import STD
from lib import tlc_model, tlc_validate


def nn(x, k=1e5):
    """an uncertainty in 1e-5; -1: none"""
    try:
        v = round(float(x) * k)
        return v if 0 <= v < 2 ** 31 else -2
    except (TypeError, ValueError):
        return -1


def model(rng, axes, bad):
    kind = rng.choice(["sensor", "linear", "linear"])
    o = [rng.randrange(0, 5000) for _ in range(axes)]
    f = [rng.randrange(0, 21) for _ in range(axes)]
    split = axes == 3 and rng.random() < .4
    if not split:
        o, f = o[:1] * axes, f[:1] * axes
    c = dict(model=kind)
    for k, x in enumerate("xyz"[:axes]) if split else [(0, "")]:
        c.update({"offset" + ("_" + x if x else ""): o[k] / 1e5, "factor" + ("_" + x if x else ""): f[k] / 1000})
    if bad:
        c["model"] = kind = rng.choice(["quadratic", "Linear", ""])
    elif kind == "sensor" and rng.random() < .3:
        c.pop("model")
    return c, dict(kind=kind, off=o, fac=f)


def n23(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Uncertainty", "SPECIFICATION Spec\nCONSTANTS MaxV = %d\nMaxS = %d\nINVARIANTS NeverNegative Stated Symmetric Grows Inside\nCHECK_DEADLOCK FALSE\n" % ctx.n((3, 2), (5, 4)))
    evs = []
    while len(evs) < ctx.n(60, 700):
        d = V.gen(rng, span=rng.choice([5000, 9000]), imgs=rng.choice([3, 12]), usbl=rng.choice([0, 0, 2]))
        if not V.enough(d):
            continue
        tabs = V.imaging(d, rng, rng.choice(["acfr_standard", "acfr_standard", "seaxerocks_3"]))
        if len(tabs) == 3:
            d.las = [dict(t=t, f="l/%07d.tif" % k) for k, t in enumerate(sorted(set(rng.randrange(-500, 5000) for _ in range(5))))]
        for x in d.vel:
            x["s"] = tuple(rng.randrange(1, 20000) / 1e5 for _ in range(3))
        for x in d.ori + d.dep:
            x["s"] = rng.randrange(1, 50000) / 1e5
        cfg = D.auv_nav_dict(csv=True)
        refuse = ["speed", "orientation", "position_z"][len(evs) // 10 % 3] if len(evs) % 10 == 7 else None
        std, ms = {}, {}
        for k, axes in (("speed", 3), ("orientation", 1), ("position_z", 1), ("position_xy", 1)):
            std[k], ms[k] = model(rng, axes, k == refuse)
        if rng.random() < .1 and not refuse:
            std = None
            ms = {k: dict(kind="sensor", off=[0] * 3, fac=[0] * 3) for k in ms}
        elif rng.random() < .3:               # names used by older settings
            for new, old in (("speed", "dvl"), ("position_z", "depth"), ("position_xy", "usbl")):
                std[old] = std.pop(new)
        cfg["std"] = std
        if std is None:
            cfg.pop("std")
        raw, proc, _ = d.build(ctx.work / "r", cfg)
        st, val, con = V.run(raw)
        sig = lambda name: [dict(t=V.ms(r.get("timestamp", r.get("timestamp [s]"))), s=[nn(r["vehicle_std_" + k]) for k in STD],
                                 v=[V.num(r[k + "_velocity [m/s]"], 10000) for k in "xyz"] if "x_velocity [m/s]" in r else []) for r in V.table(proc, name) or []] if st == "ok" else []
        mu = lambda x: round(x * 1e5)
        evs.append(dict(status=st, known=refuse is None, m=ms, vel=[dict(t=v["td"], v=v["v"], s=[mu(x) for x in v["s"]]) for v in d.vel],
                        ori=[dict(t=o["t"], a=o["a"], s=mu(o["s"])) for o in d.ori], dep=[dict(t=o["t"], y=o["y"], s=mu(o["s"])) for o in d.dep], dvlpos=d.geo["dvl"],
                        dvl=sig("auv_dr_dvl"), centre=sig("auv_dr_centre"), images=[sig("auv_dr_" + n) for n, _, _ in tabs], note=str(val)[-400:]))
        shutil.rmtree(ctx.work / "r", ignore_errors=True)
    ctx.sample({k: v for k, v in evs[0].items() if k in ("m", "status", "centre")})
    bad = tlc_validate(ctx, "TraceSigma", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["rows"] = sum(len(e["centre"]) + sum(map(len, e["images"])) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["depths are not negative where the linear model is used"]


CHECKS = {"N23": n23}
