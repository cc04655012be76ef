"""N09 event loop, N10 outlier gate, N11 image poses of the Kalman filter."""
import math, shutil
import numpy as np
import dive as D, navgen as V, renav as R, kalman as K
from lib import tlc_model, tlc_validate

STD = ["x [m]", "y [m]", "z [m]", "roll [deg]", "pitch [deg]", "yaw [deg]", "vx [m/s]", "vy [m/s]", "vz [m/s]", "vroll [deg/s]", "vpitch [deg/s]", "vyaw [deg/s]"]


def lerp(s, t, f):
    for a, b in zip(s, s[1:]):
        if a["t"] <= t <= b["t"]:
            w = (t - a["t"]) / (b["t"] - a["t"]) if b["t"] > a["t"] else 0
            return f(a) + w * (f(b) - f(a))
    raise ValueError


def stable(a, b):
    """the same run, computed with and without a perturbation of its start: False where rounding decides the outcome"""
    if len(a) != len(b) or not a:
        return False
    for x, y in zip(a, b):
        vs = [x[k] - y[k] for k in "nedh"] + [(p - q + 18000) % 36000 - 18000 for p, q in zip(x["a"], y["a"])]
        if any(abs(v) > 1 for v in vs) or any(abs(p - q) > 1 + p // 10000 for p, q in zip(x["s"], y["s"])) or any(abs(x[k]) > 10 ** 9 for k in "nedh") or any(abs(v) > 10 ** 6 for v in x["a"]):
            return False
    return True


def streams(d, want):
    return dict(ori=[o["t"] for o in d.ori], usbl=[u["t"] for u in d.usbl], dep=[x["t"] for x in d.dep], vel=[v["td"] for v in d.vel], want=sorted(want))


def play(f, d, times, e):
    """feed the reference filter the readings at the given times"""
    m = lambda f: np.array(d.geo[f]) / 10000
    log, gates = [], []
    for t in times:
        f.predict(V.T(t))
        log.append([t, "predict"])
        for kind, src, key in (("ori", d.ori, "t"), ("usbl", d.usbl, "t"), ("dep", d.dep, "t"), ("vel", d.vel, "td")):
            for r in [r for r in src if r[key] == t]:
                if kind == "ori":
                    g = f.correct([3, 4, 5], [math.radians(x / 100) for x in r["a"]], [math.radians(r.get("s", .01)) ** 2] * 3)
                elif kind == "usbl":
                    o = K.rot(f.x[3:6]) @ (m("dvl") - m("usbl"))
                    g = f.correct([0, 1], [r["n"] / 10000 + o[0], r["e"] / 10000 + o[1]], [r.get("s", 1.0) ** 2] * 2)
                elif kind == "dep":
                    o = K.rot(f.x[3:6]) @ (m("dvl") - m("depth"))
                    g = f.correct([2], [r["y"] / 10000 + o[2]], [r.get("s", .01) ** 2])
                else:
                    g = f.correct([6, 7, 8], [x / 10000 for x in r["v"]], [x ** 2 for x in r.get("s", (.01, .02, .03))])
                log.append([t, kind])
                g2 = e["mahalanobis_distance_threshold"] ** 2
                sc = 1000 if g2 < 1e5 else 1
                gates.append(dict(d2=min(2 * 10 ** 9, round(g[0] * sc)), g2=round(g2 * sc), used=bool(g[1]), close=abs(g[0] - g2) < 2 / sc + 1e-6 * g2))
    return log, gates


def reference(d, cfg, dr0, want, dr, eps=0.0):
    """the reference filter over a dive; returns its states, its steps and its decisions"""
    e = cfg["ekf"]
    poses = [o for o in d.ori if d.vel[0]["td"] <= o["t"] <= d.vel[-1]["td"]]
    a, b = poses[0]["t"], poses[-1]["t"]
    m = lambda f: np.array(d.geo[f]) / 10000
    att = [math.radians(x / 100) for x in poses[0]["a"]]
    vt = [dict(t=v["td"], v=v["v"]) for v in d.vel]
    vel = [lerp(vt, a, lambda v, k=k: v["v"][k] / 10000) for k in range(3)]
    dep = float(dr0["depth [m]"]) + (K.rot(att) @ (m("dvl") - m("depth")))[2]
    x = [float(dr0["northing [m]"]), float(dr0["easting [m]"]), dep] + att + vel + [0, 0, 0]
    x = [v + eps * (1 if k % 2 else -1) for k, v in enumerate(x)]
    sq = lambda k: np.array(e[k]).reshape(12, 12) * (1 + eps)
    f = K.Filter(V.T(a), x, sq("initial_estimate_covariance"), sq("process_noise_covariance"), e["mahalanobis_distance_threshold"])
    s = streams(d, want)
    log, gates = play(f, d, sorted({t for k in s for t in s[k] if a < t <= b}), e)
    if not all(np.isfinite(x).all() and np.isfinite(P).all() for _, x, P in f.states):
        return s, a, b, log, gates, []
    states = f.smooth() if e["activate_smoother"] and len(f.states) > 1 else f.states
    ref = []
    arm = m("origin") - m("dvl")
    for t, x, P in states:
        o = K.rot(x[3:6]) @ arm
        h = lerp(dr, V.ms(t), lambda r: r["h"] / 10000)
        q = lambda v: round(v * 10000)
        sd = [math.sqrt(max(0.0, P[k, k])) for k in range(12)]
        sd = [min(2e3, (math.degrees(v) if k // 3 in (1, 3) else v)) for k, v in enumerate(sd)]
        ref.append(dict(n=q(x[0] + o[0]), e=q(x[1] + o[1]), d=q(x[2] + o[2]), h=q(h - o[2]), a=[round(math.degrees(v) * 100) for v in x[3:6]], s=[round(v * 1e6) for v in sd]))
    return s, a, b, log, gates, ref


def ekf_rows(proc):
    res = []
    for r in V.table(proc, "auv_ekf_centre") or []:
        res.append(dict(V.pose(r), s=[min(2 * 10 ** 9, V.num(r["vehicle_std_" + k], 1e6)) for k in STD]))
    return res


def world(rng, span, outliers):
    d = V.gen(rng, span=span, imgs=rng.choice([0, 3, 12]), usbl=rng.choice([0, 2, 5]), wild=rng.random() < .5, kinds=("even", "even", "fast"))
    if rng.random() < .5:
        d.geo["dvl"] = [0, 0, 0]
    else:                                     # the rotation rate, hence its effect on the first velocity, is nil
        for o in d.ori:
            o["a"] = list(d.ori[0]["a"])
    d.geo["origin"] = [rng.randrange(-5, 6) * 1000 for _ in range(3)] if rng.random() < .5 else [0, 0, 0]
    if rng.random() < .5:                     # ties between the streams
        for s, key in ((d.vel, "td"), (d.dep, "t"), (d.usbl, "t"), (d.img, "t")):
            for x in s:
                if rng.random() < .4:
                    t = rng.choice(d.ori)["t"]
                    if all(y[key] != t for y in s):
                        x[key] = t
            s.sort(key=lambda x: x[key])
        for v in d.vel:
            v["t"] = v["td"]
        for i in d.img:
            i["t2"] = i["t"]
    for s in (d.ori, d.dep, d.usbl):
        k = rng.choice([.01, .1, 1.0])
        for x in s:
            x["s"] = k if s is not d.usbl else rng.choice([.5, 2.0, 5.0])
    if outliers:
        for u in d.usbl:
            if rng.random() < .5:
                u["n"] += rng.choice([-1, 1]) * rng.choice([5, 30, 200]) * 10000
        for x in d.dep:
            if rng.random() < .2:
                x["y"] += rng.choice([-1, 1]) * rng.choice([1, 5, 50]) * 10000
        for o in d.ori[1:]:
            if rng.random() < .2:
                o["a"] = [o["a"][0], o["a"][1], (o["a"][2] + rng.randrange(36000)) % 36000]
        for v in d.vel:
            if rng.random() < .2:
                v["v"][rng.randrange(3)] += rng.choice([-1, 1]) * rng.choice([2000, 20000])
    return d


def campaign(ctx, count, outliers):
    rng = ctx.rng
    evs, gates, rejected, skipped = [], 0, 0, 0
    while len(evs) < count:
        d = world(rng, rng.choice([5000, 9000]), outliers)
        if not V.enough(d):
            continue
        if d.geo["dvl"] != [0, 0, 0] and len({tuple(o["a"]) for o in d.ori}) > 1:
            d.geo["dvl"] = [0, 0, 0]
        V.imaging(d, rng, rng.choice(["acfr_standard", "seaxerocks_3"]))
        R.add_payload(d, rng, 9000)
        k = rng.choice([1e-9, 1e-4, .25])
        cfg = D.auv_nav_dict(ekf=True, csv=True, smoother=rng.random() < .4, maha=rng.choice([1.5, 2.0, 3.0, 5.0]) if outliers else 1e4,
                             p0=[k * rng.choice([1, 1, 4]) for _ in range(12)], q=[rng.choice([1e-3, .02, .06]) for _ in range(12)])
        root = ctx.work / "r"
        raw, proc, _ = d.build(root, cfg)
        st, val, con = V.run(raw)
        ev = dict(status=st, smoothed=cfg["ekf"]["activate_smoother"], rows=ekf_rows(proc), note=str(val)[-400:], s={k: [] for k in ("ori", "usbl", "dep", "vel", "want")},
                  **{"from": 0}, to=0, log=[], gates=[], ref=[])
        dr = R.poses(proc, "auv_dr_dvl")
        if st == "ok" and len(dr) > 1:
            want = [i["t"] for i in d.img] + [i["t2"] for i in d.img] + [s["t"] for p in d.payload.values() for s in p["rows"]]
            s, a, b, log, gs, ref = reference(d, cfg, V.table(proc, "auv_dr_dvl")[0], set(want), dr)
            close = [g.pop("close") for g in gs]
            if any(close) or not stable(ref, reference(d, cfg, V.table(proc, "auv_dr_dvl")[0], set(want), dr, 1e-7)[5]):
                skipped += 1
                shutil.rmtree(root, ignore_errors=True)
                continue                      # too close to the gate, or too sensitive to rounding, to call
            ev.update(s=s, **{"from": a}, to=b, log=log, gates=gs, ref=ref)
            gates += len(gs)
            rejected += sum(not g["used"] for g in gs)
        evs.append(ev)
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample({k: v for k, v in evs[0].items() if k not in ("rows", "ref")})
    bad = tlc_validate(ctx, "TraceEkf", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(corrections=gates, rejected=rejected, skipped=skipped, poses=sum(len(e["rows"]) for e in evs))
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["readings of one stream have distinct times; corrections whose distance equals the gate to three digits are not judged",
                        "the arithmetic of prediction and correction is that of the harness's reference filter"]


def n09(ctx):
    tlc_model(ctx, "EkfLoop", "SPECIFICATION Spec\nCONSTANTS MaxT = %d\nNR = %d\nINVARIANTS Exact Forward Once PoseForEveryWanted\nCHECK_DEADLOCK FALSE\n" % ctx.n((3, 2), (4, 2)))
    campaign(ctx, ctx.n(60, 1000), False)


def n10(ctx):
    for thr in ctx.n((1, 2), (1, 2, 3)):
        tlc_model(ctx, "EkfGate", "SPECIFICATION Spec\nCONSTANTS M = %d\nV = %d\nThr = %d\nINVARIANTS Between NeverLessCertain RejectedLeavesAll Shortest\nCHECK_DEADLOCK FALSE\n" % (ctx.n((12, 6), (24, 12)) + (thr,)))
    campaign(ctx, ctx.n(60, 1000), True)


# ------------------------------------------------------------------ N11
def cov_rows(proc, name):
    res = []
    for r in V.table(proc, name + "_cov") or []:
        c = {k: float(v) for k, v in r.items() if k.startswith("cov_")}
        ax = ["x", "y", "z", "roll", "pitch", "yaw"]
        sd = [math.sqrt(max(0.0, c["cov_%s_%s" % (k, k)])) for k in ax]
        odd = sum(abs(c["cov_%s_%s" % (a, b)] - c["cov_%s_%s" % (b, a)]) > 1e-9 + 1e-6 * abs(c["cov_%s_%s" % (a, b)]) for a in ax for b in ax)
        res.append(dict(f=r["relative_path"], s=[round(min(2e3, math.degrees(v) if k > 2 else v) * 1e6) for k, v in enumerate(sd)], odd=odd))
    return res


def n11(ctx):
    rng = ctx.rng
    tlc_model(ctx, "EkfOutput", "SPECIFICATION Spec\nCONSTANTS MaxT = %d\nNI = %d\nINVARIANTS EveryImage OwnState OnceEach\nCHECK_DEADLOCK FALSE\n" % ctx.n((5, 4), (8, 5)))
    evs, runs = [], 0
    while runs < ctx.n(40, 700):
        span = rng.choice([5000, 9000])
        d = world(rng, span, False)
        if not V.enough(d):
            continue
        d.geo["dvl"] = [rng.randrange(-15, 16) * 1000 for _ in range(3)]
        d.ref = (rng.choice([26.0, -33.5, 0.0, 57.25]), rng.choice([127.0, -3.5, 0.0, 179.0]))
        tabs = V.imaging(d, rng)
        las = [rng.randrange(-1500, span + 1500) for _ in range(rng.choice([1, 9, 20]))] if len(tabs) == 3 else []
        d.las = [dict(t=t, f="l/%07d.tif" % k) for k, t in enumerate(sorted(set(las)))]
        d.img += [dict(t=o["t"], t2=o["t"], f="", f2="") for o in (d.ori[0], d.ori[-1], rng.choice(d.ori)) if rng.random() < .5]
        d.img.sort(key=lambda i: i["t"])
        if rng.random() < .3:                 # two images at one instant
            for l in (d.img, d.las):
                if l:
                    l.insert(0, dict(l[0]))
                    k = rng.randrange(len(l))
                    l[k:k] = [dict(l[k])]
        last = -10 ** 9
        for k, i in enumerate(d.img):
            i.update(f="i/%07d_LC.tif" % k, f2="i/%07d_RC.tif" % k)
            i["t2"] = max(i["t2"], last)
            last = max(last, i["t2"])
        for k, i in enumerate(d.las):
            i["f"] = "l/%07d.tif" % k
        R.add_payload(d, rng, span)
        cfg = D.auv_nav_dict(ekf=True, csv=True, smoother=rng.random() < .5, maha=rng.choice([3.0, 1e4]), p0=[rng.choice([1e-4, .25])] * 12)
        root = ctx.work / "r"
        raw, proc, _ = d.build(root, cfg)
        st, val, con = V.run(raw)
        runs += 1
        poses = [o["t"] for o in d.ori if d.vel[0]["td"] <= o["t"] <= d.vel[-1]["td"]]
        kn, ke = V.wgs(d.ref[0])
        states = ekf_rows(proc)
        for name, key, frame in tabs:
            for suf in ("", "_at_dvl") if key == "las" else ("",):
                rs = V.table(proc, "auv_ekf_" + name + suf) or []
                to = d.geo["dvl"] if suf else d.geo[frame]
                evs.append(dict(status=st, table=name + suf, states=states, samples=R.samples(d, key), arm=[a - b for a, b in zip(to, d.geo["origin"])], kn=kn, ke=ke,
                                rows=[dict(R.prow(r, d.ref), s=[min(2 * 10 ** 9, V.num(r["vehicle_std_" + k], 1e6)) for k in STD]) for r in rs],
                                cov=True, covrows=cov_rows(proc, "auv_ekf_" + name + suf), to=poses[-1], **{"from": poses[0]}, note=str(val)[-400:]))
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample({k: v for k, v in evs[0].items() if k not in ("rows", "states", "covrows")})
    bad = tlc_validate(ctx, "TraceEkfOutput", evs)
    ctx.cov["traces_validated_against_impl"] += runs
    ctx.notes.update(tables=len(evs), rows=sum(len(e["rows"]) for e in evs))
    for i, why in bad:
        ctx.violation(why, evs[i])


CHECKS = {"N11": n11, "N09": n09, "N10": n10}
