"""N25: files for sidescan software and SLAM++."""
import calendar, shutil, time
from pathlib import Path
import dive as D, navgen as V, ekfrun as E
from fixlogs import Zone, ZONES
from lib import tlc_model, tlc_validate


def side(proc, sol):
    res = []
    for p in Path(proc).glob("json_renav_*/csv/*/auv_%s_centre_sss.txt" % sol):
        for l in p.read_text().splitlines()[1:]:
            m, day, clock, *x = l.split()
            la, lo, yaw, roll, pitch, h, d, v = [float(k) for k in x]
            t = calendar.timegm(time.strptime(day + clock, "%Y%m%d%H%M%S")) - round(V.B)
            r = lambda k: max(-2 * 10 ** 9, min(2 * 10 ** 9, round(k * 1000)))
            res.append(dict(t=t, la=round(la * 1e6), lo=round(lo * 1e6), a=[r(roll), r(pitch), r(yaw)], h=r(h), d=r(d), v=r(v)))
    return res


def track(proc, sol):
    g = lambda r, k, u: 0 if r[k] == "None" else V.num(r[k], u)
    return [dict(t=V.ms(r["timestamp"]), la=g(r, "latitude [deg]", 1e6), lo=g(r, "longitude [deg]", 1e6), a=[V.num(r[k + " [deg]"], 1000) for k in ("roll", "pitch", "heading")],
                 h=V.num(r["altitude [m]"], 1000), d=V.num(r["depth [m]"], 1000)) for r in V.table(proc, "auv_%s_centre" % sol) or []]


COL = ["northing [m]", "easting [m]", "depth [m]", "heading [deg]", "pitch [deg]", "roll [deg]"]


def edges(proc, cam):
    res = []
    var = [[float(r["cov_%s_%s" % (k, k)]) for k in ("x", "y", "z", "yaw", "pitch", "roll")] for r in V.table(proc, "auv_ekf_%s_cov" % cam) or []]
    for p in Path(proc).glob("json_renav_*/csv/ekf/auv_ekf_%s.txt" % cam):
        for l in p.read_text().splitlines():
            x = l.split()
            inf = [float(k) for k in x[9:]]
            diag = [0, 6, 11, 15, 18, 20]
            res.append(dict(i=int(x[1]), j=int(x[2]), p=[round(float(k) * 1000) for k in x[3:9]], n=len(inf), q=[round(min(1e5, inf[k] * v) * 1000) for k, v in zip(diag, var[len(res) + 1] if len(inf) == 21 and len(res) + 1 < len(var) else [])]))
    return res


def n25(ctx):
    rng = ctx.rng
    tlc_model(ctx, "SideFiles", "SPECIFICATION Spec\nCONSTANTS N = %d\nX = 2\nINVARIANTS Whole FromZero Telescopes Consecutive\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 5))
    evs, base = [], V.B
    while len(evs) < ctx.n(60, 800):
        V.B = rng.choice([base, calendar.timegm((2020, 2, 29, 23, 59, 56)) * 1.0, calendar.timegm((2019, 12, 31, 23, 59, 55)) * 1.0])
        d = E.world(rng, 9000, False)
        if not V.enough(d):
            continue
        if d.geo["dvl"] != [0, 0, 0] and len({tuple(o["a"]) for o in d.ori}) > 1:
            d.geo["dvl"] = [0, 0, 0]
        tabs = V.imaging(d, rng, rng.choice(["acfr_standard", "seaxerocks_3"]))
        k = rng.choice([0, 5, 998])
        step = rng.choice([1, 1, 3])
        for n, i in enumerate(d.img):
            i["f"], i["f2"] = "i/L%07d.tif" % (k + n * step), "i/R%07d.tif" % (k + n * step)
        ekf, pf, spp = rng.random() < .7, rng.random() < .3, rng.random() < .7
        fl = {(g, "auv_centre"): rng.random() < .9 for g in ("dr", "ekf", "pf")}
        raw, proc, _ = d.build(ctx.work / "r", D.auv_nav_dict(ekf=ekf, pf=pf, csv=True, spp=spp, csv_flags=fl, smoother=rng.random() < .5, maha=1e4, p0=[1e-3] * 12))
        with Zone(rng.choice(ZONES)):
            st, val, con = V.run(raw)
        sol = lambda g, on: dict(wanted=bool(on and fl[g, "auv_centre"]), rows=track(proc, g), side=side(proc, g))
        cam = tabs[0][0]
        imgs = [dict(i=int(r["relative_path"][-11:-4]), p=[round(float(r[c]) * 1000) for c in COL]) for r in V.table(proc, "auv_ekf_" + cam) or []]
        evs.append(dict(status=st, note=str(val)[-400:], dr=sol("dr", True), ekf=sol("ekf", ekf), pf=sol("pf", pf), spp=spp and ekf, imgs=imgs, edges=edges(proc, cam),
                        vel=[dict(t=v["td"], v=v["v"]) for v in d.vel]))
        shutil.rmtree(ctx.work / "r", ignore_errors=True)
        if any(abs(x) > 10 ** 8 for g in ("dr", "ekf", "pf") for r in evs[-1][g]["rows"] for x in (r["d"], r["h"])) or any(abs(x) > 10 ** 8 for i in imgs for x in i["p"]):
            evs.pop()
    V.B = base
    ctx.sample({k: v for k, v in evs[0].items() if k in ("edges", "status", "imgs")})
    bad = tlc_validate(ctx, "TraceSide", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes.update(rows=sum(len(e[g]["side"]) for e in evs for g in ("dr", "ekf", "pf")), edges=sum(len(e["edges"]) for e in evs))
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["SLAM++: the first camera, image names that end in a seven-digit number, three images or more; of the information matrix only its shape and its diagonal (never below the inverse of the variance) are judged"]


CHECKS = {"N25": n25}
