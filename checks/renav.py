"""N06 time window, N07 dead reckoning, N08 image poses, N13 acoustic anchoring."""
import copy, json, shutil
import lib, dive as D, navgen as V
from lib import run_code, tlc_model, tlc_validate, tree_hash

CURSOR = "SPECIFICATION Spec\nCONSTANTS MaxT = %d\nNS = %d\nNQ = %d\nINVARIANTS Found OnePerQuery\nCHECK_DEADLOCK FALSE\n"
TRIG = "SPECIFICATION Spec\nCONSTANTS Step = %d\nINVARIANTS Orthonormal RightHanded Convention\nCHECK_DEADLOCK FALSE\n"


def poses(proc, name):
    t = V.table(proc, name)
    return [V.pose(r) for r in t] if t is not None else []


def n07(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Cursor", CURSOR % ctx.n((6, 3, 3), (9, 5, 4)))
    tlc_model(ctx, "Trig", TRIG % ctx.n(3000, 1500))
    tlc_model(ctx, "DRModel", "SPECIFICATION Spec\nCONSTANTS MaxSteps = %d\nINVARIANTS Straight SpeedBound HeaveOnly\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 7))
    evs, logs = [], []
    while len(evs) < ctx.n(70, 900):
        d = V.gen(rng, span=rng.choice([5000, 9000, 14000]), gap=12000)
        if not V.enough(d):
            continue
        off = rng.choice([0, 0, 150, -400])
        for v in d.vel:
            v["t"] = v["td"] + off
        root = ctx.work / ("r%d" % len(evs))
        raw, proc, _ = d.build(root, D.auv_nav_dict(ekf=False, csv=True))
        st, val, con = V.run(raw)
        evs.append(dict(status=st, vel=[dict(t=v["td"], v=v["v"]) for v in d.vel], ori=d.ori, dep=d.dep, alt=d.alt,
                        geo=d.geo, dvl=poses(proc, "auv_dr_dvl"), centre=poses(proc, "auv_dr_centre")))
        logs.append(dict(evs[-1], note=str(val)[-500:]))
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceDR", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["poses_checked"] = sum(len(e["dvl"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, logs[i])
    ctx.assumptions += ["at least two velocities and three orientations at distinct times; depth and altitude are checked where readings bracket the pose"]


def samples(d, key):
    if key == "img1":
        return [dict(t=i["t"], f=i["f"]) for i in d.img]
    if key == "img2":
        return [dict(t=i["t2"], f=i["f2"]) for i in d.img]
    return [dict(t=i["t"], f=i["f"]) for i in d.las]


def prow(r, ref, off=0.0):
    """one row of a camera or payload table"""
    g = dict(n=V.num(r["northing [m]"], 10000), e=V.num(r["easting [m]"], 10000), d=V.num(r["depth [m]"], 10000), h=V.num(r["altitude [m]"], 10000))
    try:
        g["lat"] = round((float(r["latitude [deg]"]) - ref[0]) * 1e8)
        g["lon"] = round((float(r["longitude [deg]"]) - ref[1]) * 1e8)
        assert abs(g["lat"]) < 90000 and abs(g["lon"]) < 90000
    except (TypeError, ValueError, AssertionError):
        g["lat"] = g["lon"] = 90000
    if "relative_path" in r:
        g.update(t=V.ms(r["timestamp [s]"]), f=r["relative_path"],
                 a=[V.num(r[k + " [deg]"], 100) for k in ("roll", "pitch", "heading")])
    else:
        g.update(t=V.ms(float(r["corrected_timestamp"]) + off), f=str(int(float(r["value"]))), a=[0, 0, 0])
    return g


def tables(proc, d, tabs, status, solutions=("dr",), track=None):
    """one event per pose table"""
    kn, ke = V.wgs(d.ref[0])
    for sol in solutions:
        trk = poses(proc, "auv_%s_centre" % sol)
        base = dict(status=status, track=trk, kn=kn, ke=ke)
        for name, key, frame in tabs if sol != "ekf" else []:
            rs = V.table(proc, "auv_%s_%s" % (sol, name)) or []
            yield dict(base, table="auv_%s_%s" % (sol, name), samples=samples(d, key), arm=[a - b for a, b in zip(d.geo[frame], d.geo["origin"])],
                       rows=[prow(r, d.ref) for r in rs], timed=True, posed=True)
        for k, p in (d.payload or {}).items():
            rs = V.table(proc, "%s_%s" % (k, sol)) or []
            yield dict(base, table="%s_%s" % (k, sol), samples=[dict(t=s["t"], f=str(s["f"])) for s in p["rows"]],
                       arm=[a - b for a, b in zip(p["pos"], d.geo["origin"])], rows=[prow(r, d.ref, p["off"]) for r in rs], timed=True, posed=False)


def add_payload(d, rng, span):
    d.payload = {}
    for k in range(rng.choice([0, 1, 1, 2])):
        ends = {o["t"] for o in d.ori}    # pandas may read the last digit of a time differently
        ts = sorted(set(rng.randrange(-1500, span + 1500) for _ in range(rng.randrange(1, 9))) - ends) or [-1501]
        d.payload["pl%d" % k] = dict(path="payload/p%d.csv" % k, off=rng.choice([0.0, 0.0, 0.5, -1.25]), pos=[rng.randrange(-15, 16) * 1000 for _ in range(3)],
                                     rows=[dict(t=t, f=j) for j, t in enumerate(ts)])


def n08(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Cursor", CURSOR % ctx.n((6, 3, 3), (9, 5, 4)))
    tlc_model(ctx, "PoseModel", "SPECIFICATION Spec\nCONSTANTS Grid = %d\nDt = %d\nINVARIANTS Ends Shortest Range Lever\nCHECK_DEADLOCK FALSE\n" % ctx.n((1500, 5), (300, 12)))
    evs, runs = [], 0
    while runs < ctx.n(75, 700):
        span = rng.choice([5000, 9000])
        pf = runs % 9 == 4
        ekf = runs % 5 == 2
        d = V.gen(rng, span=span, imgs=rng.choice([1, 2, 12, 25]), usbl=3 if pf else rng.choice([0, 0, 2]))
        if not V.enough(d):
            continue
        d.ref = (rng.choice([26.0, -33.5, 0.0, 57.25]), rng.choice([127.0, -3.5, 0.0, 179.0]))
        tabs = V.imaging(d, rng)
        d.geo["origin"] = [rng.randrange(-5, 6) * 1000 for _ in range(3)] if rng.random() < .3 else [0, 0, 0]
        if len(tabs) == 3:
            d.las = [dict(t=t, f="l/%07d.tif" % k) for k, t in enumerate(sorted(set(rng.randrange(-1500, span + 1500) for _ in range(rng.choice([1, 9, 20])))))]
        add_payload(d, rng, span)
        if rng.random() < .2:             # a camera that only took one image, at an end of the track
            k = [o["t"] for o in d.ori if d.vel[0]["t"] <= o["t"] <= d.vel[-1]["t"]]
            t = rng.choice([k[0], k[-1]])
            d.img = [dict(t=t, t2=t, f="i/%07d_LC.tif" % 7, f2="i/%07d_RC.tif" % 7)]
        raw, proc, _ = d.build(ctx.work / ("r%d" % runs), D.auv_nav_dict(ekf=ekf, pf=pf, csv=True))
        st, val, con = V.run(raw)
        runs += 1
        for e in tables(proc, d, tabs, st, ("dr",) + (("pf",) if pf else ()) + (("ekf",) if ekf else ())):
            evs.append(dict(e, note=str(val)[-400:]))
        shutil.rmtree(ctx.work / ("r%d" % (runs - 1)), ignore_errors=True)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TracePose", evs)
    ctx.cov["traces_validated_against_impl"] += runs
    ctx.notes["tables"] = len(evs)
    ctx.notes["rows"] = sum(len(e["rows"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["image times of one camera are increasing; a heading change of exactly half a turn between poses is not judged"]


def gposes(proc, name, ref):
    """track poses with their latitude and longitude relative to the reference"""
    return [dict(V.pose(r), **{k: v for k, v in prow(dict(r, relative_path="", **{"timestamp [s]": r["timestamp"]}), ref).items() if k in ("lat", "lon")})
            for r in V.table(proc, name) or []]


def n13(ctx):
    rng = ctx.rng
    tlc_model(ctx, "UsblOffset", "SPECIFICATION Spec\nCONSTANTS MaxT = %d\nR = {%s}\nINVARIANTS Vanishes Shape\nCHECK_DEADLOCK FALSE\n" % ctx.n((5, "0, 1, 3"), (5, "0, 1, 2, 5")))
    evs = []
    while len(evs) < ctx.n(75, 700):
        d = V.gen(rng, span=rng.choice([5000, 9000, 14000]), usbl=rng.choice([1, 1, 2, 3, 6, 9]))
        if not V.enough(d):
            continue
        if rng.random() < .15:            # all fixes before or after the track
            for u in d.usbl:
                u["t"] = u["t"] - 30000 if rng.random() < .5 else u["t"] + 40000
        elif rng.random() < .3:           # a fix exactly at a pose
            d.usbl[0]["t"] = rng.choice(d.ori)["t"]
        d.usbl.sort(key=lambda u: u["t"])
        d.ref = (rng.choice([26.0, -33.5, 57.25]), rng.choice([127.0, -3.5, 0.0]))
        root = ctx.work / ("r%d" % len(evs))
        raw, proc, _ = d.build(root / "a", D.auv_nav_dict(csv=True))
        st, val, con = V.run(raw)
        b = copy.deepcopy(d)
        b.usbl = []
        raw0, proc0, _ = b.build(root / "b", D.auv_nav_dict(csv=True))
        st0, val0, _ = V.run(raw0)
        kn, ke = V.wgs(d.ref[0])
        evs.append(dict(status=st if st != "ok" else st0, kn=kn, ke=ke, fixes=[dict(t=u["t"], n=u["n"], e=u["e"]) for u in d.usbl],
                        centre=gposes(proc, "auv_dr_centre", d.ref), dvl=gposes(proc, "auv_dr_dvl", d.ref),
                        centre0=poses(proc0, "auv_dr_centre"), dvl0=poses(proc0, "auv_dr_dvl"), note=str(val)[-400:]))
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceOffset", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in bad:
        ctx.violation(why, evs[i])


def n19(ctx):
    rng = ctx.rng
    tlc_model(ctx, "ParticleLoop", "SPECIFICATION Spec\nCONSTANTS MaxT = %d\nND = %d\nNU = %d\nINVARIANTS InOrder Complete OnceEach\nCHECK_DEADLOCK FALSE\n" % ctx.n((4, 3, 3), (6, 4, 4)))
    from auv_nav.localisation import pf as PF
    cls = getattr(PF, "UsblObservationModel", None)
    org = getattr(cls, "set_observation", None)
    log = []
    if org is not None:
        def watch(self, value):
            log.append(V.ms(value.epoch_timestamp))
            return org(self, value)
        cls.set_observation = watch
    evs = []
    try:
        while len(evs) < ctx.n(75, 700):
            span = rng.choice([5000, 9000])
            d = V.gen(rng, span=span, usbl=rng.choice([1, 2, 4, 8]))
            if not V.enough(d):
                continue
            if rng.random() < .4:
                d.usbl[0]["t"] = rng.choice(d.ori)["t"]
                d.usbl.sort(key=lambda u: u["t"])
            if not any(d.vel[0]["t"] <= u["t"] <= d.vel[-1]["t"] for u in d.usbl) and rng.random() < .7:
                continue
            root = ctx.work / ("r%d" % len(evs))
            d.ref = (rng.choice([26.0, -33.5, 57.25]), rng.choice([127.0, -3.5, 0.0]))
            kn, ke = V.wgs(d.ref[0])
            raw, proc, _ = d.build(root, D.auv_nav_dict(pf=True, csv=True))
            del log[:]
            st, val, con = V.run(raw)
            evs.append(dict(status=st, vel=[dict(t=v["td"], v=v["v"]) for v in d.vel], ori=d.ori, geo=d.geo, fixes=[dict(t=u["t"]) for u in d.usbl],
                            dr=poses(proc, "auv_dr_dvl"), pf=gposes(proc, "auv_pf_dvl", d.ref), centre=gposes(proc, "auv_pf_centre", d.ref), kn=kn, ke=ke,
                            watched=org is not None, weighed=list(log), note=str(val)[-400:]))
            shutil.rmtree(root, ignore_errors=True)
    finally:
        if org is not None:
            cls.set_observation = org
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TracePF", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["rows"] = sum(len(e["pf"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    weigh(ctx)
    ctx.assumptions += ["for the shape of the track the movement model is run without noise, so that every particle follows the same trajectory"]


def weigh(ctx):
    """particles recorded around every fix of runs with noise"""
    import numpy as np
    from auv_nav.localisation import pf as PF
    from auv_nav.sensors import SyncedOrientationBodyVelocity, Usbl
    rng = ctx.rng
    tlc_model(ctx, "Particles", "SPECIFICATION Spec\nCONSTANTS N = %d\nM = %d\nINVARIANTS Proportional AllDrawn\nCHECK_DEADLOCK FALSE\n" % ctx.n((4, 3), (5, 3)))
    evs = []
    for _ in range(ctx.n(40, 500)):
        dr, fx, n = [], [], rng.randrange(20, 39)
        t, x, y, psi = 0, 0.0, 0.0, rng.uniform(0, 6.28)
        for k in range(n):
            o = SyncedOrientationBodyVelocity()
            o.epoch_timestamp = V.T(t)
            o.northings, o.eastings, o.depth, o.altitude = x, y, 50.0, 5.0
            o.roll, o.pitch, o.yaw = rng.uniform(-5, 5), rng.uniform(-5, 5), np.degrees(psi) % 360
            o.x_velocity, o.y_velocity, o.z_velocity = rng.uniform(.1, 1), rng.uniform(-.2, .2), 0.0
            dr.append(o)
            if rng.random() < .3 and k:
                u = Usbl()
                q = t - rng.choice([0, 130, 260])
                f = rng.choice([.4, 1, 3, 10])
                u.epoch_timestamp = V.T(q)
                u.northings_std, u.eastings_std, u.depth_std = f * rng.uniform(.2, 2), f * rng.uniform(.2, 2), f * rng.uniform(.2, 2)
                u.northings, u.eastings, u.depth = x + rng.gauss(0, f), y + rng.gauss(0, f), 50 + rng.gauss(0, f / 2)
                fx.append(u)
                if rng.random() < .2:     # two fixes at one time
                    u = copy.deepcopy(u)
                    u.northings += rng.gauss(0, f)
                    fx.append(u)
            dt = rng.choice([300, 700, 1000])
            t += dt
            x += o.x_velocity * np.cos(psi) * dt / 1000
            y += o.x_velocity * np.sin(psi) * dt / 1000
            psi += rng.uniform(-.1, .1)
        fx = [u for u in fx if u.epoch_timestamp <= dr[-1].epoch_timestamp]
        if not fx:
            continue
        np.random.seed(rng.randrange(10 ** 6))
        std = dict(position_xy=dict(factor=0, offset=0), position_z=dict(factor=0, offset=rng.choice([.01, .3])), orientation=dict(factor=0, offset=.02),
                   speed=dict(factor=0, offset=rng.choice([.1, .5, 2.0])))
        N, kf = rng.choice([8, 16, 30]), rng.choice([1, 1, 2, .5])
        st, val, con = run_code(PF.run_particle_filter, fx, dr, N, std, 1.0, 1.0, kf)
        if st != "ok":
            evs.append(dict(status=st, note=str(val)[-400:]))
            continue
        try:
            track = [(o.northings, o.eastings) for o in val[0]]
            snap = {len(s[0].trajectory): [([tuple(map(float, np.asarray(z).ravel())) for z in p.trajectory], p.weight) for p in s] for s in val[2]}
        except (AttributeError, IndexError):
            ctx.notes["unobservable_particles"] = ctx.notes.get("unobservable_particles", 0) + 1
            continue
        order = sorted([(o.epoch_timestamp, 1, k) for k, o in enumerate(dr)] + [(u.epoch_timestamp, 0, k) for k, u in enumerate(fx)])
        fixes = [k for k, (_, kind, _) in enumerate(order) if kind == 0]
        for k in fixes:
            a, b = snap.get(k + 1), snap.get(k + 2)
            u = fx[order[k][2]]
            if not a or not b or k + 2 > len(order) or len(a) != N:
                continue
            sd = kf * (u.northings_std ** 2 + u.eastings_std ** 2 + u.depth_std ** 2) ** .5
            ll = [-((u.northings - z[k][0]) ** 2 + (u.eastings - z[k][1]) ** 2 + (u.depth - z[k][2]) ** 2) / (2 * sd * sd) for z, _ in a]
            top = max(ll)
            if top < -20:
                continue
            after = {}
            for z, w in b:
                after.setdefault(tuple(z[:k + 1]), []).append(w)
            total = sum(w for _, w in a)
            # weights lost to underflow carry no information
            if not .99 < total < 1.01 or sum(w * np.exp(l) for (_, w), l in zip(a, ll)) / (sd * 2.5066) < 1e-12:
                continue
            p = [dict(w=round(1e4 * w / total), l=round(1e4 * np.exp(l - top)), c=len(after.get(tuple(z), [])), w2=round(1e4 * (after.get(tuple(z)) or [0])[0])) for (z, w), l in zip(a, ll)]
            last = k == fixes[-1]
            # particles whose history is the track's (several when they have not moved apart yet)
            best = [i + 1 for i, (z, _) in enumerate(a)
                    if len(track) > k and all(abs(s[0] - q[0]) < 1e-9 and abs(s[1] - q[1]) < 1e-9 for s, q in zip(z, track))]
            evs.append(dict(status="ok", p=p, last=last, best=best))
    if not evs:
        return
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceParticles", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["weighings"] = len(evs)
    for i, why in bad:
        ctx.violation(why, evs[i])


# ------------------------------------------------------------------ N06
def strip(d):
    """the readings of a dive in the form of the specification"""
    r = []
    f = lambda s: round(s * 1e6)
    for v in d.vel:
        r.append(dict(kind="velocity_body", t=v["t"], td=v["td"], tt=v["td"], v=v["v"], s=[f(x) for x in v["s"]], sv=v["v"]))
    for v in d.ivel:
        r.append(dict(kind="velocity_inertial", t=v["t"], td=0, tt=v["t"], v=[v["v"][1], v["v"][0], v["v"][2]], s=[], sv=[]))
    for o in d.ori:
        r.append(dict(kind="orientation", t=o["t"], td=0, tt=o["t"], v=o["a"], s=[f(o["s"])] * 3, sv=[100 * x for x in o["a"]]))
    for x in d.dep:
        r.append(dict(kind="depth", t=x["t"], td=0, tt=x["t"], v=[x["y"]], s=[f(x["s"])], sv=[x["y"]]))
    for x in d.alt:
        r.append(dict(kind="altitude", t=x["t"], td=0, tt=x["t"], v=[x["y"]], s=[], sv=[]))
    for u in d.usbl:
        r.append(dict(kind="usbl", t=u["t"], td=0, tt=u["t"], v=[u["n"], u["e"], u["d"], round(u["dist"] * 1e4), f(u["s"])],
                      s=[f(u["s"])] * 2, sv=[round(u["dist"] * 1e4)] * 2))
    return r


COLS = {"velocity_body": (["x_velocity", "y_velocity", "z_velocity"], ["x_velocity_std", "y_velocity_std", "z_velocity_std"], 1e4),
        "velocity_inertial": (["east_velocity", "north_velocity", "down_velocity"], [], 1e4),
        "orientation": (["roll", "pitch", "yaw"], ["roll_std", "pitch_std", "yaw_std"], 100),
        "depth": (["depth"], ["depth_std"], 1e4), "altitude": (["altitude"], [], 1e4),
        "usbl": (["northings", "eastings", "depth", "distance_to_ship"], ["northings_std", "eastings_std"], 1e4)}


def sensor_table(proc, kind):
    vals, stds, k = COLS[kind]
    res = []
    for r in V.table(proc, kind) or []:
        v = [V.num(r[c], k) for c in vals]
        if kind == "usbl":
            v.append(V.num(r["depth_std"], 1e6))
        res.append(dict(t=V.ms(r["epoch_timestamp"]), v=v, s=[V.num(r[c], 1e6) for c in stds]))
    return res


def keep(d, lo, hi):
    b = copy.deepcopy(d)
    for k in ("vel", "ivel", "ori", "dep", "alt", "usbl", "img", "las"):
        setattr(b, k, [x for x in getattr(b, k) if lo <= x["t"] <= hi])
    return b


def results(proc):
    return sorted([p, h] for p, h in tree_hash(proc).items() if h != "dir" and "json_renav" in p)


def n06(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Window", "SPECIFICATION Spec\nCONSTANTS MaxT = %d\nN = %d\nINVARIANTS Exact Ordered Independent\nCHECK_DEADLOCK FALSE\n" % ctx.n((3, 3), (4, 4)))
    stamp = lambda t: __import__("time").strftime("%Y%m%d%H%M%S", __import__("time").gmtime(V.T(t)))
    evs, tries = [], 0
    while len(evs) < ctx.n(70, 600):
        tries += 1
        span = rng.choice([9000, 14000])
        d = V.gen(rng, span=span, usbl=rng.choice([0, 3, 6]), imgs=rng.choice([0, 3, 12]))
        if rng.random() < .6:             # readings exactly on whole seconds
            for l in (d.vel, d.ori, d.dep, d.alt, d.usbl):
                seen = set()
                for x in l:
                    if rng.random() < .5:
                        t = x["t"] // 1000 * 1000
                        if all(t != y["t"] for y in l):
                            x["t"] = t
                l.sort(key=lambda x: x["t"])
        q = rng.choice([0, 0, 300, -250])
        for v in d.vel:
            v["td"] = v["t"] + q
            v["s"] = [rng.randrange(1, 500) / 1e4 for _ in range(3)]
        for v in rng.sample(d.vel, min(2, len(d.vel))):   # a velocity sensor clock that disagrees
            if rng.random() < .5:
                v["td"] = v["t"] + rng.choice([999, -999, 1000, -1000, 1001, 5000, -3000])
        for o in d.ori:
            o["s"] = rng.randrange(1, 500) / 1e4
        for o in d.dep:
            o["s"] = rng.randrange(1, 500) / 1e4
        for u in d.usbl:
            u["dist"], u["s"] = rng.randrange(1, 90) * 1.0, rng.randrange(1, 500) / 100
        for l in (d.dep, d.alt, d.usbl):  # several readings at one time
            if l and rng.random() < .3:
                k = rng.randrange(len(l))
                l.insert(k + 1, dict(rng.choice(l), t=l[k]["t"]))
        for l, vals in ((d.alt, [0, -10000, 1]), (d.dep, [0, 1])):
            if rng.random() < .3:         # on the ground, at the surface
                rng.choice(l)["y"] = rng.choice(vals)
        if rng.random() < .4:
            d.ivel = [dict(t=t, v=[rng.randrange(-5000, 5000) for _ in range(3)]) for t in range(rng.randrange(0, 900), span, 700)]
        lo, hi = rng.choice([None, 0, 1000, 2000, 3000]), rng.choice([None, span // 1000 * 1000, span // 1000 * 1000 - 1000, span // 1000 * 1000 - 2000])
        flo, fhi = -10 ** 6 if lo is None else lo, 10 ** 6 if hi is None else hi
        ins = keep(d, flo, fhi)
        okv = sorted([dict(v, t=v["td"]) for v in ins.vel if abs(v["t"] - v["td"]) < 1000], key=lambda v: v["t"])
        chk = copy.deepcopy(ins)
        chk.vel = okv
        if not V.enough(chk) or len(ins.ori) < 3 or len(ins.dep) < 3 or len(ins.alt) < 3:
            continue
        if len({v["t"] for v in okv}) < len(okv) or [v["td"] for v in ins.vel if abs(v["t"] - v["td"]) < 1000] != [v["t"] for v in okv]:
            continue                      # the velocity sensor's own clock is assumed to run forward
        if not [a for a in ins.alt if a["t"] > ins.dep[0]["t"]]:
            continue
        model = lambda: dict(model=rng.choice(["sensor", "linear"]), offset=rng.randrange(0, 40) / 100, factor=rng.randrange(0, 6) / 100)
        std = {k: model() for k in ("position_xy", "position_z", "speed", "orientation")}
        given = copy.deepcopy(std)
        for k, o in (("position_xy", "usbl"), ("position_z", "depth"), ("speed", "dvl")):
            if rng.random() < .25:        # the names of older configurations
                given[o] = given.pop(k)
        if rng.random() < .2:             # no model: the sensor's own uncertainty
            k = rng.choice(sorted(std))
            std[k]["model"] = "sensor"
            given[k if k in given else dict(position_xy="usbl", position_z="depth", speed="dvl")[k]].pop("model")
        cfg = D.auv_nav_dict(csv=True, std=given)
        root = ctx.work / ("r%d" % len(evs))
        raw, proc, _ = d.build(root / "a", cfg)
        st, val, con = V.run(raw, start="" if lo is None else stamp(lo), end="" if hi is None else stamp(hi))
        raw2, proc2, _ = ins.build(root / "b", cfg)
        st2, val2, _ = V.run(raw2, start="" if lo is None else stamp(lo), end="" if hi is None else stamp(hi))
        sc = lambda m: dict(model=m["model"], offset=round(m["offset"] * 1e6), factor=round(m["factor"] * 100))
        evs.append(dict(status=st, status2=st2, recs=sorted(strip(d), key=lambda r: r["t"]), to=fhi, **{"from": flo},
                        std={"velocity_body": sc(std["speed"]), "orientation": sc(std["orientation"]), "depth": sc(std["position_z"]), "usbl": sc(std["position_xy"])},
                        tables={k: sensor_table(proc, k) for k in COLS}, files=results(proc), files2=results(proc2), note=str(val)[-300:] + str(val2)[-300:]))
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceWindow", evs)
    ctx.cov["traces_validated_against_impl"] += 2 * len(evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["the span holds at least two velocities, three orientations, depths and altitudes, and the velocity sensor's own clock runs forward"]


CHECKS = {"N06": n06, "N07": n07, "N08": n08, "N13": n13, "N19": n19}
