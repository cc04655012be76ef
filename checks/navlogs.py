"""N21: navigation logs of every format other than PHINS."""
import math, shutil
import numpy as np
import scipy.io as spio
import rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_validate
from fixlogs import Zone, ZONES, stamp

CATS = ("velocity", "orientation", "depth", "altitude")


def txt(x, k=10000.0, d=4):
    return "%.*f" % (d, x / k)


def rows(rng, cat, s, step=1, whole=False, bad=.15, back=False, lim=15000):
    """readings of one sensor: local time, usable, values in 1e-4, stated error in 1e-5"""
    res, t = [], 0
    for _ in range(rng.randrange(1, 9)):
        t += rng.choice([1000, 2000, 61000] if whole else [10, 250, 990, 1000, 4320])
        if back and res and rng.random() < .2:
            t = max(0, t - rng.choice([1000, 2000, 5000] if whole else [10, 250, 1000, 5000]))
        v = dict(velocity=lambda: [rng.randrange(-lim, lim) // 10 * 10 for _ in range(3)],
                 orientation=lambda: [rng.randrange(0, 3600000) // 100 * 100, rng.randrange(-300000, 300000) // 100 * 100, rng.randrange(-300000, 300000) // 100 * 100],
                 depth=lambda: [rng.randrange(1, 30000) * 1000], altitude=lambda: [rng.randrange(100, 2000) * 100])[cat]()
        if cat == "depth" and res and rng.random() < .25:
            v = list(res[-1]["v"])
        res.append(dict(t=s.local(W.NOON + t) // step * step, ok=rng.random() >= bad, v=v, e=rng.randrange(0, 50) * 100))
    return res


def csv(head, lines):
    return "\n".join([",".join(head)] + [",".join(x) for x in lines]) + "\n"


def lo(r):
    return stamp(r["t"])


def ms(r):
    return "%03d" % (r["t"] % 1000)


# every format: returns {category: event fields}, after filling mission and files
def ae2000(rng, w, files, q):
    ev = {}
    tag = rng.choice(["200101", "191231", "191130"]) + "%02d%02d%02d" % (   # the log may have been started on another day
        rng.randrange(24), rng.randrange(60), rng.randrange(60))
    for cat in CATS:
        s = W.rand_sensor(rng)
        rec = rows(rng, cat, W.Sensor("utc", s.off))
        name = {"velocity": "dvl", "altitude": "dvl", "orientation": "quadrans", "depth": "pos"}[cat] + tag + ".csv"
        fac, off = rng.choice([(1, 20000), (10, 0), (2, 500)])
        w.mission[cat] = dict(format="ae2000", filepath="nav/%s/" % cat, filename=name, std_factor=fac / 1000, std_offset=off / 1e5, **s.cfg())
        ls = []
        for r in rec:
            if cat == "orientation":
                r["ok"] = True
            bad = rng.choice(["0", "", "0.0"]) if not r["ok"] else "1"
            time = lo(r).strftime("%Y/%m/%d %H:%M:%S.") + ms(r)
            if not r["ok"] and rng.random() < .3:
                time, bad = "", "1"
            v = r["v"]
            if cat == "velocity":
                ls.append(["x", time, bad] + [txt(x, 10, 1) for x in v])
            elif cat == "altitude":
                ls.append(["x", time, bad, txt(v[0])])
            elif cat == "orientation":
                ls.append(["x", time, txt(v[1]), txt(v[2]), txt(v[0])])
            else:
                ls.append(["x", time, txt(v[0]) if bad == "1" else rng.choice(["", "0.0", "-3.5"])])
        head = dict(velocity=["dvl_validBottom", "dvl_surgeVelBottom", "dvl_swayVelBottom", "dvl_heaveVelBottom"], altitude=["dvl_validBottom", "dvl_rangeBottom"],
                    orientation=["roll", "pitch", "yaw"], depth=["Depth"])[cat]
        if rng.random() < .5:                 # other columns in between
            head.append("spare")
            ls = [x + ["7"] for x in ls]
        files["nav/%s/%s" % (cat, name)] = csv(["n", "date"] + head, ls)
        ev[cat] = dict(files=[rec], rule="changed" if cat == "depth" else "all", tz=0, off=s.off, turn=q if cat in ("velocity", "orientation") else 0, fac=fac, foff=off, raw=cat == "orientation")
    return ev


def shared(rng, w, fmt, name):
    ev = {}
    for cat in CATS:
        fac, off = rng.choice([(1, 20000), (10, 0), (2, 500)])
        w.mission[cat] = dict(format=fmt, filepath="nav/log/", filename=name, std_factor=fac / 1000, std_offset=off / 1e5)
        ev[cat] = dict(rule="latest", tz=0, off=0, turn=0, raw=False, **dict(velocity=dict(fac=fac, foff=off), orientation=dict(fac=0, foff=off)).get(cat, dict(fac=fac, foff=0)))
    return ev


def alr(rng, w, files, q):
    mat = rng.random() < .4
    ev = shared(rng, w, "alr", "log.mat" if mat else "log.csv")
    s = W.Sensor()
    base = rows(rng, "velocity", s, back=True, bad=.2)
    o, d, a = [[dict(r, v=x["v"], ok=rng.random() > .15) for r, x in zip(base, rows(rng, c, s, bad=0) * 9)] for c in CATS[1:]]
    for x, b in zip(a, base):
        x["ok"] = b["ok"] and x["ok"]
    ev["velocity"]["files"], ev["orientation"]["files"], ev["depth"]["files"], ev["altitude"]["files"] = [base], [o], [d], [a]
    nan = float("nan")
    key = "epoch_timestamp" if mat else rng.choice(["timestamp", "corrected_timestamp"])
    col = {key: [R.BASE + r["t"] / 1000 for r in base]}
    good = "DVL_down_BT_is_good" if mat else "DVL_down_BT_valid"
    col[good] = [1.0 if r["ok"] else rng.choice([0.0, nan]) for r in base]
    for k, n in enumerate("xyz"):
        col["DVL_down_BT_" + n] = [r["v"][k] / 10000 for r in base]
    for k, n in enumerate(("heading", "roll", "pitch")):
        col["AUV_" + n] = [math.radians(r["v"][k] / 10000) if r["ok"] else nan for r in o]
    col["AUV_depth"] = [r["v"][0] / 10000 if r["ok"] else nan for r in d]
    col["AUV_altitude"] = [r["v"][0] / 10000 if r["ok"] or not b["ok"] else nan for r, b in zip(a, base)]
    if mat:
        files["nav/log/log.mat"] = dict(MissionData={k: np.array(v) for k, v in col.items()})
    else:
        if key == "corrected_timestamp" and rng.random() < .5:
            col["timestamp"] = [x + 77 for x in col[key]]
        ks = list(col)
        rng.shuffle(ks)
        files["nav/log/log.csv"] = csv(ks, [["" if math.isnan(col[k][i]) else "%.9f" % col[k][i] for k in ks] for i in range(len(base))])
    if mat and len(base) == 1:
        base.append(dict(base[0], t=base[0]["t"] + 1000))
        return alr(rng, w, files, q)
    return ev


def autosub(rng, w, files, q):
    ev = shared(rng, w, "autosub", "m.mat")
    data = {}
    for cat in CATS:
        rec = []
        while len(rec) < 2:                   # a single sample is stored as a number, not as a list
            rec = rows(rng, cat, W.Sensor(), back=True, bad=0)
        ev[cat]["files"] = [rec]
        c = dict(eTime=np.array([R.BASE + r["t"] / 1000 for r in rec]))
        v = lambda k, f=1e-4: np.array([r["v"][k] * f for r in rec])
        if cat == "velocity":
            c.update(Vnorth0=v(0, -.1), Veast0=v(1, -.1), Vdown0=v(2, -.1), Verr0=np.array([r["e"] / 100.0 for r in rec]))
            ev[cat]["fac"] = -1
        elif cat == "orientation":
            c.update(Heading=np.radians(v(0)), Roll=np.radians(v(1)), Pitch=np.radians(v(2)))
        else:
            c[dict(depth="DepCtldepth", altitude="ADCPAvAlt")[cat]] = v(0)
        data[dict(velocity="ADCPbin00", orientation="INSAttitude", depth="DepCtlNode", altitude="ADCPLog_1")[cat]] = c
    files["nav/log/m.mat"] = dict(missionData=data)
    return ev


def koyo(rng, w, files, q):
    ev = {}
    sens = {c: W.rand_sensor(rng) for c in CATS}
    vs = sens["velocity"]
    for s in sens.values():
        s.off = s.off // 1000 * 1000
    for cat in CATS:
        fac, off = rng.choice([(1, 20000), (10, 0), (2, 500)])
        w.mission[cat] = dict(format="koyo21rov", filepath="nav/%s/" % cat, filename=cat + ".csv", std_factor=fac / 1000, std_offset=off / 1e5, **sens[cat].cfg())
        ev[cat] = dict(rule="latest", tz=int(sens[cat].hours * 3600000), off=sens[cat].off, turn=0, raw=False,
                       **dict(velocity=dict(fac=fac, foff=off), orientation=dict(fac=0, foff=off)).get(cat, dict(fac=fac, foff=0)))
    v = rows(rng, "velocity", vs, whole=True, back=True)
    for r in v:
        r["v"][1] = 0
    base = rows(rng, "orientation", sens["orientation"], whole=True, back=True)
    o, d, a = [[dict(r, v=x["v"], ok=rng.random() > .15) for r, x in zip(base, rows(rng, c, vs, bad=0) * 9)] for c in CATS[1:]]
    ev["velocity"]["files"], ev["orientation"]["files"], ev["depth"]["files"], ev["altitude"]["files"] = [v], [o], [d], [a]
    raw = rng.random() < .5

    def when(r):
        return [lo(r).strftime("%Y/%m/%d"), lo(r).strftime("%H:%M:%S")] if raw else [lo(r).strftime("%Y-%m-%d %H:%M:%S")]
    th = ["Date", "Time"] if raw else ["timestamp"]
    b = lambda r, k=0: txt(r["v"][k]) if r["ok"] else ""
    files["nav/velocity/velocity.csv"] = csv(th + ["surge", "heave"], [when(r) + [b(r), b(r, 2)] for r in v])
    files["nav/orientation/orientation.csv"] = csv(th + ["Roll", "Pich", "Hedding", "Depth(ROV)", "ALT"], [when(x) + [b(x, 1), b(x, 2), b(x, 0), b(y), b(z)] for x, y, z in zip(o, d, a)])
    return ev


def rdi(rng, w, files, q):
    ev = {}
    w.mission.pop("depth")
    for cat in ("velocity", "orientation", "altitude"):
        s = W.rand_sensor(rng)
        fac, off = rng.choice([(1, 20000), (10, 0), (2, 500)])
        w.mission[cat] = dict(format="rdi", filepath="nav/%s/" % cat, filename="log.rdi", std_factor=fac / 1000, std_offset=off / 1e5, **s.cfg())
        rec = rows(rng, cat, s, step=10)
        ev[cat] = dict(files=[rec], rule="all", tz=int(s.hours * 3600000), off=s.off, turn=q if cat == "velocity" else 0, raw=False,
                       **dict(velocity=dict(fac=-1, foff=0), orientation=dict(fac=0, foff=off)).get(cat, dict(fac=fac, foff=0)))
        ls = []
        for r in rec:
            t = lo(r)
            ls.append(":TS,%s%02d,35.0,12.5,10.0,1500.0,0" % (t.strftime("%y%m%d%H%M%S"), r["t"] % 1000 // 10))
            v = r["v"] if cat == "velocity" else [100, 200, 300]
            ls.append(":BI,%+d,%+d,%+d,%+d,%s" % (v[0] // 10, v[1] // 10, v[2] // 10, r["e"] // 100, "A" if r["ok"] or cat == "orientation" else "V"))
            ls.append(rng.choice([":BS,1,2,3,A", ":BE,1,2,3,A", ""]))
            ls.append(":BD,+0.0,+0.0,+0.0,%s,0.5" % (txt(r["v"][0], d=2) if cat == "altitude" else "5.00"))
            if cat != "orientation" or r["ok"]:
                v = r["v"] if cat == "orientation" else [1000, 2000, 3000]
                ls.append(":SA,%s,%s,%s" % (txt(v[2], d=2), txt(v[1], d=2), txt(v[0], d=2)))
        files["nav/%s/log.rdi" % cat] = "\n".join(ls) + "\n"
    return ev


def ntnu(rng, w, files, q):
    from auv_nav.parsers.parse_ntnu_dvl import header_list
    ev = {}
    w.mission.pop("depth"), w.mission.pop("orientation")
    for cat in ("velocity", "altitude"):
        fac, off = rng.choice([(1, 20000), (10, 0), (2, 500)])
        s = W.rand_sensor(rng)
        w.mission[cat] = dict(format="ntnu_dvl", filepath="nav/dvl/", std_factor=fac / 1000, std_offset=off / 1e5, **s.cfg())
        ev[cat] = dict(files=[], rule="all", tz=int(s.hours * 3600000), off=s.off, turn=q if cat == "velocity" else 0, raw=False, fac=fac, foff=off if cat == "velocity" else 0)
    t0 = 0
    for i in range(rng.choice([1, 1, 2])):
        rec = rows(rng, "velocity", s)
        for r in rec:
            r["t"] += t0
        t0 += 600000
        alt = [dict(r, v=x["v"], ok=True) for r, x in zip(rec, rows(rng, "altitude", s) * 9)]
        ev["velocity"]["files"].append(rec)
        ev["altitude"]["files"].append(alt)
        ls = ["# header", "# units"]
        for r, a in zip(rec, alt):
            c = {h: txt(rng.randrange(10 ** 6)) for h in header_list}
            v = r["v"] if r["ok"] else [-327680 if rng.random() < .6 else x for x in r["v"][:2]] + [-327680]
            k = rng.randrange(-500, 500) * 10
            c.update(time=lo(r).strftime("%H:%M:%S.") + ms(r), u_dvl=txt(v[0]), v_dvl=txt(v[1]), z_dvl=txt(v[2]), dvl_alt1=txt(a["v"][0] + k), dvl_alt3=txt(a["v"][0] - k))
            ls.append("\t".join(c[h] for h in header_list))
        files["nav/dvl/20200101_%d.log" % i] = "\n".join(ls) + "\n"
    return ev


def eiva(rng, w, files, q):
    ev = {}
    w.mission.pop("velocity"), w.mission.pop("altitude")
    w.mission["usbl"] = dict(format="eiva_navipac", filepath="nav/npd/", label=rng.choice([2, 7]), std_factor=.01, std_offset=1.0)
    for cat in ("orientation", "depth"):
        s = W.rand_sensor(rng)
        fac, off = rng.choice([(1, 20000), (10, 0), (2, 500)])
        w.mission[cat] = dict(format="eiva_navipac", filepath="nav/npd/", std_factor=fac / 1000, std_offset=off / 1e5, **s.cfg())
        ev[cat] = dict(files=[], rule="all", tz=int(s.hours * 3600000), off=s.off, turn=0, raw=False, fac=0 if cat == "orientation" else fac, foff=off if cat == "orientation" else 0, _s=s)
    t0 = 0
    for i in range(rng.choice([1, 1, 2])):
        ls = []
        for cat in ("orientation", "depth"):
            rec = rows(rng, cat, ev[cat]["_s"])
            ev[cat]["files"].append(rec)
            for r in rec:
                r["t"] += t0
                t = lo(r).strftime("%Y:%m:%d:%H:%M:%S.") + ms(r)
                if cat == "depth":
                    ident = w.mission["usbl"]["label"] + (0 if r["ok"] else 1)
                    ls.append("D     %d  19  1 %s %s 0 0" % (ident, t, txt(r["v"][0])))
                else:
                    x = "%s,%s,%s" % tuple(txt(r["v"][k]) for k in (2, 1, 0))
                    bad = rng.choice(["R132  5 %s $PRDID,%s", "R132  4 %s $GPHDT,%s"]) % (t, x)
                    ls.append("R132  4 %s $PRDID,%s" % (t, x) if r["ok"] else bad)
        t0 += 600000
        rng.shuffle(ls)
        files["nav/npd/2020%d_G.NPD" % i] = "\n".join(ls) + "\n"
    for e in ev.values():
        e.pop("_s")
    return ev


FORMATS = dict(ae2000=ae2000, alr=alr, autosub=autosub, koyo21rov=koyo, rdi=rdi, ntnu_dvl=ntnu, eiva_navipac=eiva)
FIELDS = dict(velocity=[(0, "x_velocity"), (1, "y_velocity"), (2, "z_velocity")], orientation=[(0, "heading"), (1, "roll"), (2, "pitch")], depth=[(0, "depth")], altitude=[(0, "altitude")])
SECOND = dict(velocity="epoch_timestamp_dvl", altitude="epoch_timestamp_dvl", depth="epoch_timestamp_depth", orientation="epoch_timestamp")


def n21(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "NavLog", "SPECIFICATION Spec\nCONSTANTS N = %d\nMaxT = 2\nINVARIANTS Complete Genuine LastCounts CurrentValue NoRepeats InvalidIsNothing FourTurns\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4))
    evs = []
    for k in range(ctx.n(84, 1200)):
        fmt = list(FORMATS)[k % len(FORMATS)]
        w = W.World(ctx.work / ("f%d" % k))
        q = rng.choice([0, 0, 1, 2, 3]) if fmt in ("ae2000", "rdi", "ntnu_dvl") else 0
        w.vehicle["dvl"] = dict(w.vehicle["dvl"], yaw_deg=90.0 * q)
        w.vehicle["ins"] = dict(w.vehicle["ins"], yaw_deg=90.0 * q)
        files = {}
        ev = FORMATS[fmt](rng, w, files, q)
        w.write()
        for name, text in files.items():
            p = w.raw / name
            p.parent.mkdir(parents=True, exist_ok=True)
            spio.savemat(p, text) if isinstance(text, dict) else p.write_text(text)
        with Zone(rng.choice(ZONES)):
            st, val, con = run_code(parse, [str(w.raw)], False, False)
        if st == "ok" and not (w.proc / "nav/nav_standard.json").exists():
            st = "missing"
        nav = w.nav() if st == "ok" else []
        for cat, e in ev.items():
            recs = []
            for r in nav:
                if r["category"] == cat and r["frame"] != "inertial" or r["category"] == cat == "depth":
                    g = r["data"]
                    f = FIELDS[cat]
                    recs.append(dict(t=round((r["epoch_timestamp"] - R.BASE) * 1000), t2=round((r[SECOND[cat]] - R.BASE) * 1000),
                                     v=[round(g[i][n] * 10000) for i, n in f], s=[round(g[i][n + "_std"] * 100000) for i, n in f]))
            evs.append(dict(status=st, fmt=fmt, cat=cat, recs=recs, note=str(val)[-500:] if st != "ok" else "", **e))
        shutil.rmtree(w.root, ignore_errors=True)
    for e in evs[:4]:
        ctx.sample(e)
    bad = tlc_validate(ctx, "TraceNavLog", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["readings_recorded"] = sum(len(e["recs"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, dict(evs[i]))
    ctx.assumptions += ["AE2000, ALR and Autosub logs are stamped in UTC; sensors are mounted at quarter turns; an RDI ensemble starts with its :TS line"]


CHECKS = {"N21": n21}
