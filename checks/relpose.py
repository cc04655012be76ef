"""N24: uncertainties relative to an image."""
import math, shutil, threading
import numpy as np
import lib, dive as D, navgen as V, ekfrun as E, kalman as K
from lib import tlc_model, tlc_validate
AX = ["x", "y", "z", "roll", "pitch", "yaw"]


def covs(proc, name):
    big = lambda x: max(-2 * 10 ** 9, min(2 * 10 ** 9, round(x * 1e6))) if math.isfinite(x) else 2 * 10 ** 9 + 1
    return [dict(f=r["relative_path"], c=[big(float(r["cov_%s_%s" % (a, b)])) for a in AX for b in AX]) for r in V.table(proc, name + "_cov") or []]


def rows(proc, name):
    return [dict(V.pose(r), f=r["relative_path"]) for r in V.table(proc, name) or []]


def restarted(d, cfg, row, names, eps=0.0):
    """the reference filter, restarted without pose uncertainty at an image; its states at the images"""
    e = cfg["ekf"]
    t0 = V.ms(float(row["timestamp [s]"]))
    x = [float(row[k + " [m]"]) for k in ("northing", "easting", "depth")] + [math.radians(float(row[k + " [deg]"])) for k in ("roll", "pitch", "heading")]
    x += [float(row[k + "_velocity [m/s]"]) for k in "xyz"] + [0, 0, 0]
    P = np.array(e["initial_estimate_covariance"]).reshape(12, 12) * (1 + eps)
    P[:6, :6] = 0
    f = K.Filter(V.T(t0) - 1e-6, [v + eps * (1 if k % 2 else -1) for k, v in enumerate(x)], P, np.array(e["process_noise_covariance"]).reshape(12, 12), e["mahalanobis_distance_threshold"])
    at = {l["f"]: l["t"] for l in d.las}
    s = E.streams(d, [i["t"] for i in d.img] + [i["t2"] for i in d.img] + list(at.values()))
    end = at[names[-1]]
    E.play(f, d, sorted({t for k in s for t in s[k] if t0 <= t <= end}), e)
    if not all(np.isfinite(x).all() and np.isfinite(P).all() for _, x, P in f.states):
        return []
    states = {V.ms(t): (x, P) for t, x, P in (f.smooth() if e["activate_smoother"] else f.states)}
    res = []
    for n in names:
        x, P = states[at[n]]
        if max(abs(P[:6, :6]).max(), abs(x[:3]).max() / 10) > 1000:
            return []
        res.append(dict(f=n, t=at[n], n=round(x[0] * 1e4), e=round(x[1] * 1e4), d=round(x[2] * 1e4), a=[round(math.degrees(v) * 100) for v in x[3:6]], c=[round(v * 1e6) for v in P[:6, :6].flatten()]))
    return res


def alike(a, b):
    return len(a) == len(b) and all(abs(x[k] - y[k]) <= 1 for x, y in zip(a, b) for k in "ned") and all(abs((p - q + 18000) % 36000 - 18000) <= 1 for x, y in zip(a, b) for p, q in zip(x["a"], y["a"])) and \
        all(abs(p - q) <= 2 + abs(p) // 10000 for x, y in zip(a, b) for p, q in zip(x["c"], y["c"]))


def n24(ctx):
    rng = ctx.rng
    tlc_model(ctx, "RelPose", "SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS Ends Whole Missing Zero NeverSmaller\nCHECK_DEADLOCK FALSE\n" % ctx.n(5, 8))
    evs, judged = [], 0
    while len(evs) < ctx.n(40, 400):
        d = E.world(rng, 9000, False)
        if not V.enough(d):
            continue
        tabs = V.imaging(d, rng, ["seaxerocks_3", "seaxerocks_3", "biocam0", "biocam1"][len(evs) % 4])
        d.geo["dvl"] = [rng.randrange(-15, 16) * 1000 for _ in range(3)]
        d.las = [dict(t=t, f="l/%07d.tif" % k) for k, t in enumerate(sorted(set(rng.randrange(-1500, 9500) for _ in range(rng.choice([8, 20])))))]
        smooth = rng.random() < .5
        raw, proc, _ = d.build(ctx.work / "r", cfg := D.auv_nav_dict(ekf=True, csv=True, smoother=smooth, maha=1e4, p0=[rng.choice([1e-3, .25])] * 12))
        st, val, con = V.run(raw)
        name = tabs[2][0] + "_at_dvl"
        table = V.table(proc, "auv_ekf_" + name)
        before, cov = rows(proc, "auv_ekf_" + name), covs(proc, "auv_ekf_" + name)
        if st != "ok" or len(before) < 4 or any(abs(p[k]) > 10 ** 8 for p in before for k in "ned"):
            shutil.rmtree(ctx.work / "r", ignore_errors=True)
            if st != "ok":
                ctx.violation("the command finishes", dict(status=st, note=str(val)[-500:]))
                return
            continue
        tree = lib.tree_hash(proc)
        i, j = sorted(rng.sample(range(len(before)), 2))
        i, j = (0 if rng.random() < .3 else i), (len(before) - 1 if rng.random() < .3 else j)
        a, b = before[i]["f"], before[j]["f"]
        case = rng.choice(["", "", "", "one", "nostart", "noend", "reversed", "nothing"])
        if case == "one":
            b = a
        elif case == "nostart":
            a = rng.choice(["l/9999999.tif", a[:-4], ""])
        elif case == "noend":
            b = rng.choice(["l/9999999.tif", b.upper(), ""])
        elif case == "reversed":
            a, b = b, a
        args = ["--start_image_identifier", a, "--end_image_identifier", b]
        if case == "nothing":
            args = rng.choice([[], args[:2], args[2:]])
        st, val, con = lib.cli("auv_nav", "process", str(raw), "-r", *args)
        for t in threading.enumerate():
            if t is not threading.current_thread() and not t.daemon:
                t.join(60)
        after = lib.tree_hash(proc)
        ch = [k for k in tree if k.startswith("json_renav") and after.get(k) != tree[k]]
        names = [p["f"] for p in before]
        ref = []
        if case != "nothing" and a in names and not (b in names and names.index(b) < names.index(a)):
            names = names[names.index(a):names.index(b) + 1 if b in names else None]
            ref = restarted(d, cfg, table[[p["f"] for p in before].index(a)], names)
            if not alike(ref, restarted(d, cfg, table[[p["f"] for p in before].index(a)], names, 1e-7)):
                ref = []
            judged += bool(ref)
        sub, prop = "auv_ekf_cov_based_on_subtraction_" + name, "auv_ekf_cov_based_on_ekf_propagation_" + name
        evs.append(dict(status=st, given=case != "nothing", start=a, stop=b, poses=before, cov=cov, changed=len(ch), what=ch[:5], sub=rows(proc, sub), subcov=covs(proc, sub), prop=rows(proc, prop),
                        propcov=covs(proc, prop), plain=not smooth, ref=ref, note=str(val)[-400:]))
        shutil.rmtree(ctx.work / "r", ignore_errors=True)
    ctx.sample({k: v for k, v in evs[0].items() if k in ("start", "stop", "status", "sub")})
    bad = tlc_validate(ctx, "TraceRelPose", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(judged_by_the_reference=judged)
    for i, why in bad:
        ctx.violation(why, evs[i])


CHECKS = {"N24": n24}
