"""N22: auv_nav convert - pose files of other groups to and from the tables of the pipeline."""
import json, math, os, re, shutil, time
import lib, dive as D, navgen as G
from lib import tlc_model, tlc_validate
LAT, LON = 26.0, 127.0
VH = "timestamp,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],latitude [deg],longitude [deg],vehicle_std_x [m],vehicle_std_y [m],vehicle_std_z [m],vehicle_std_roll [deg],vehicle_std_pitch [deg],vehicle_std_yaw [deg],vehicle_std_vx [m/s],vehicle_std_vy [m/s],vehicle_std_vz [m/s],vehicle_std_vroll [deg/s],vehicle_std_vpitch [deg/s],vehicle_std_vyaw [deg/s]"
CH = "relative_path,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],timestamp [s],latitude [deg],longitude [deg],x_velocity [m/s],y_velocity [m/s],z_velocity [m/s],vehicle_std_x [m],vehicle_std_y [m],vehicle_std_z [m],vehicle_std_roll [deg],vehicle_std_pitch [deg],vehicle_std_yaw [deg],vehicle_std_vx [m/s],vehicle_std_vy [m/s],vehicle_std_vz [m/s],vehicle_std_vroll [deg/s],vehicle_std_vpitch [deg/s],vehicle_std_vyaw [deg/s]"


def deg(u):
    return u / 100.0


def track(rng, n, gap=(200, 6000)):
    """n poses at increasing times, moving a little each time"""
    t, p = rng.randrange(0, 10 ** 6), dict(lat=rng.randrange(-9000, 9000), lon=rng.randrange(-9000, 9000), n=rng.randrange(-90000, 90000), e=rng.randrange(-90000, 90000), d=rng.randrange(0, 200000), h=rng.randrange(500, 9000))
    ang = [rng.randrange(-2500, 2500), rng.randrange(-2500, 2500), rng.choice([0, 17900, 35900, rng.randrange(36000)])]
    res = []
    for _ in range(n):
        res.append(dict(p, t=t, a=list(ang)))
        t += rng.randrange(*gap)
        for k, s in (("lat", 300), ("lon", 300), ("n", 4000), ("e", 4000), ("d", 1500), ("h", 700)):
            p[k] += rng.randrange(-s, s + 1)
        p["h"] = max(p["h"], 100)
        ang = [max(-3000, min(3000, ang[0] + rng.randrange(-400, 401))), max(-3000, min(3000, ang[1] + rng.randrange(-400, 401))), (ang[2] + rng.choice([rng.randrange(-900, 901), rng.randrange(-17000, 17001)])) % 36000]
    return res


def acfr_line(i, p, extra=None, signed=False):
    z = p["z"] - 36000 if signed and p["z"] > 18000 else p["z"]
    a = [math.radians(deg(x)) for x in (p["x"], p["y"], z)]
    cols = [i, repr(G.T(p["t"])), repr(LAT + p["lat"] / 1e7), repr(LON + p["lon"] / 1e7), p["n"] / 1e3, p["e"] / 1e3, p["d"] / 1e3] + [repr(x) for x in a]
    return " \t".join(str(c) for c in cols + (extra or [p["h"] / 1e3])) + "\n"


def preamble(n):
    return "\n" + "".join("%% line %d of the preamble\n" % i for i in range(n - 1)) + "ORIGIN_LATITUDE  %r\nORIGIN_LONGITUDE %r\n" % (LAT, LON)


def num(x):
    return float(x) if x not in ("", "None", "nan") else 0.0


def mm(x, s=1000):
    return int(round(num(x) * s))


def row(r, stamp):
    return dict(t=G.ms(num(r[stamp])), lat=mm(num(r["latitude [deg]"]) - LAT, 10 ** 7), lon=mm(num(r["longitude [deg]"]) - LON, 10 ** 7), n=mm(r["northing [m]"]), e=mm(r["easting [m]"]), d=mm(r["depth [m]"]), h=mm(r["altitude [m]"]),
                a=[mm(r["roll [deg]"], 100), mm(r["pitch [deg]"], 100), mm(r["heading [deg]"], 100)], name=r.get("relative_path", ""))


def table(p, stamp):
    if not p.exists():
        return []
    head, *body = [x.split(",") for x in p.read_text().splitlines()]
    return [row(dict(zip(head, b)), stamp) for b in body]


# ------------------------------------------------------------------ acfr_to_oplab
def acfr(ctx, rng, evs, root):
    evs.append(dict(op="new"))
    out = root / "converted"
    for k in range(rng.randrange(1, 5)):
        want = rng.choice([("veh",), ("rig",), ("veh", "rig"), ("rig", "laser"), ("veh", "rig", "laser"), ("veh", "rig", "laser")])
        force = rng.random() < .4
        v = dict(veh=[], rig=[], laser=[])
        args = ["auv_nav", "convert", "acfr_to_oplab", "-o", out] + (["-F"] if force else [])
        signed = rng.random() < .5
        f = root / ("in%d" % k)
        f.mkdir(parents=True)
        pose = lambda p: dict({x: p[x] for x in ("t", "lat", "lon", "n", "e", "d", "h")}, x=p["a"][0], y=p["a"][1], z=p["a"][2])
        if "veh" in want:
            v["veh"] = [pose(p) for p in track(rng, rng.randrange(1, 12))]
            (f / "vehicle_pose_est.data").write_text(preamble(44) + "".join(acfr_line(i, p, None, signed) for i, p in enumerate(v["veh"])))
            args += ["--vehicle-pose", f / "vehicle_pose_est.data"]
        if "rig" in want:
            v["rig"] = [dict(pose(p), left="image/LC/PR_%05d_LC16.tif" % i, right="image/RC/PR_%05d_RC16.tif" % i) for i, p in enumerate(track(rng, rng.randrange(2, 12)))]
            (f / "stereo_pose_est.data").write_text(preamble(55) + "".join(acfr_line(i, p, [p["left"], p["right"], p["h"] / 1e3, 1.5, rng.randrange(2)], signed) for i, p in enumerate(v["rig"])))
            args += ["--stereo-pose", f / "stereo_pose_est.data"]
        if "laser" in want:
            a, b = v["rig"][0]["t"], v["rig"][-1]["t"]
            ts = sorted({rng.choice([rng.randrange(a, b + 1), rng.choice(v["rig"])["t"], rng.randrange(a, v["rig"][1]["t"] + 1)]) for _ in range(rng.randrange(1, 12))})
            v["laser"] = [dict(t=t, name="image/laser/%05d.tif" % i) for i, t in enumerate(ts)]
            other = [D.dep_rec(G.T(rng.randrange(a, b + 1)), 3.0) for _ in range(rng.randrange(4))]
            recs = sorted(other + [D.laser_rec(G.T(x["t"]), x["name"]) for x in v["laser"]], key=lambda r: r["epoch_timestamp"])
            raw, _, _ = D.build(root / ("d%d" % k), nav=[D.origin_rec()] + recs)
            args += ["-d", raw]
        st, val, con = lib.cli(*args)
        known = ("auv_acfr_centre.csv", "auv_acfr_LC.csv", "auv_acfr_RC.csv", "auv_acfr_laser.csv")
        evs.append(dict(op="acfr", v=v, force=force, status=st, note=str(val)[-300:] if st == "crash" else "",
                        after=dict(centre=table(out / known[0], "timestamp"), left=table(out / known[1], "timestamp [s]"), right=table(out / known[2], "timestamp [s]"), laser=table(out / known[3], "timestamp [s]"),
                                   other=sorted(p.name for p in out.glob("*") if p.name not in known) if out.exists() else [])))


# ------------------------------------------------------------------ oplab_to_acfr
def tab(head, rows, camera):
    res = [head]
    for r in rows:
        base = [r["n"] / 1e3, r["e"] / 1e3, r["d"] / 1e3] + [deg(x) for x in r["a"]] + [r["h"] / 1e3]
        ll = [repr(LAT + r["lat"] / 1e7), repr(LON + r["lon"] / 1e7)]
        cols = ([r["name"]] + base + [repr(G.T(r["t"]))] + ll + [0.1, 0.2, 0.3]) if camera else [repr(G.T(r["t"]))] + base + ll
        res.append(",".join(str(c) for c in cols + [0.01] * 12))
    return "\n".join(res) + "\n"


def pose_file(p, camera):
    origin, rows = [], []
    if not p.exists():
        return origin, rows
    for line in p.read_text().splitlines():
        w = line.split()
        if not w or w[0].startswith("%"):
            continue
        if w[0].startswith("ORIGIN"):
            origin.append(round(float(w[1]) * 1e6))
            continue
        r = dict(id=int(w[0]), t=G.ms(float(w[1])), lat=mm(float(w[2]) - LAT, 10 ** 7), lon=mm(float(w[3]) - LON, 10 ** 7), n=mm(w[4]), e=mm(w[5]), d=mm(w[6]), rad=[mm(x, 10 ** 5) for x in w[7:10]], h=mm(w[12] if camera else w[10]))
        if camera:
            r.update(left=w[10], right=w[11])
        rows.append(r)
    return origin, rows


def raw_lines(p):
    res = []
    for line in p.read_text().splitlines() if p.exists() else []:
        kind, rest = line.split(":", 1)
        f = dict(re.findall(r"(\w+): ?(-?[\d.e+-]+|None)", rest))
        w = rest.split()
        r = dict(kind=dict(RDI="vel", PHINS_COMPASS="ori", PAROSCI="dep", SSBL_FIX="usbl", VIS="img").get(kind, kind), t=G.ms(num(w[0])))
        if kind == "RDI":
            r.update(h=mm(f["alt"]), a=[mm(f[x], 100) for x in "rph"], v=[mm(f[x]) for x in ("vx", "vy", "vz")])
        elif kind == "PHINS_COMPASS":
            r.update(a=[mm(f[x], 100) for x in "rph"])
        elif kind == "PAROSCI":
            r.update(d=mm(w[1]))
        elif kind == "SSBL_FIX":
            r.update(n=mm(f["target_x"], 10), e=mm(f["target_y"], 10), d=mm(f["target_z"], 10), hr=mm(f["target_hr"], 10), sr=mm(f["target_sr"], 10), sn=mm(f["ship_x"], 10), se=mm(f["ship_y"], 10))
        elif kind == "VIS":
            r.update(name=w[2])
        res.append(r)
    return res


def sensor_log(rng):
    """nav_standard records with the model's view of each (an image pair is two entries)"""
    t, recs, view = rng.randrange(1000, 5000), [], []
    for i in range(rng.randrange(4, 40)):
        t += rng.randrange(1, 900)
        k = rng.choice(["vel", "vel", "late", "alt", "alt", "ori", "ori", "dep", "usbl", "img", "ivel", "las"])
        a = [rng.randrange(-2000, 2000), rng.randrange(-2000, 2000), rng.randrange(36000)]
        v = [rng.randrange(-900, 900) for _ in range(3)]
        d, h = rng.randrange(1, 90000), rng.randrange(100, 9000)
        T = G.T(t)
        if k in ("vel", "late"):
            td = t + (rng.choice([0, 0, 400, -700]) if k == "vel" else rng.choice([1500, -3000]))
            recs.append(D.vel_rec(T, *(x / 1e3 for x in v), tdvl=G.T(td)))
            view.append(dict(kind=k, t=td, v=v))
        elif k == "ivel":
            recs.append(D.ivel_rec(T, *(x / 1e3 for x in v)))
            view.append(dict(kind=k, t=t))
        elif k == "alt":
            recs.append(D.alt_rec(T, h / 1e3))
            view.append(dict(kind=k, t=t, h=h))
        elif k == "ori":
            recs.append(D.ori_rec(T, *(x / 100 for x in a)))
            view.append(dict(kind=k, t=t, a=a))
        elif k == "dep":
            td = t + rng.choice([0, 0, 30, -250])
            recs.append(dict(D.dep_rec(T, d / 1e3), epoch_timestamp_depth=G.T(td)))
            view.append(dict(kind=k, t=td, d=d))
        elif k == "usbl":
            u = dict(n=rng.randrange(-3000, 3000), e=rng.randrange(-3000, 3000), d=rng.randrange(1, 4000), sr=rng.randrange(1, 9000), sn=rng.randrange(-3000, 3000), se=rng.randrange(-3000, 3000))
            r = D.usbl_rec(T, u["n"] / 10, u["e"] / 10, u["d"] / 10, dist=u["sr"] / 10)
            r["data_ship"][1] = dict(northings=u["sn"] / 10, eastings=u["se"] / 10)
            recs.append(r)
            view.append(dict(u, kind=k, t=t))
        elif k == "img":
            x = rng.random() < .15
            f = ["image/PR_%05d_%s%s.tif" % (i, "xxx_" if x else "", c) for c in ("LC", "RC")]
            t2 = t + rng.choice([0, 0, 1, 3])
            recs.append(D.img_rec(T, f[0], f[1], G.T(t2)))
            view += [] if x else [dict(kind="img", t=t, name=f[0]), dict(kind="img", t=t2, name=f[1])]
        else:
            recs.append(D.laser_rec(T, "image/laser/%d.tif" % i))
    return recs, view


def oplab(ctx, rng, evs, root):
    evs.append(dict(op="new"))
    out, last = root / "processed" / "acfr", None
    for k in range(rng.randrange(1, 4)):
        force = rng.random() < .5
        origin = [round(LAT * 1e6) + rng.randrange(-400, 400), round(LON * 1e6) + rng.randrange(-400, 400)]
        names = rng.choice([("LC", "RC"), ("cam_a", "cam_b")])
        recs, view = sensor_log(rng)
        m = D.mission_dict(origin=dict(latitude=origin[0] / 1e6, longitude=origin[1] / 1e6, coordinate_reference_system="wgs84", date="2020/01/01"))
        m["image"]["cameras"] = [dict(name=n, origin="cam%d" % (i + 1), path="image/i1") for i, n in enumerate(names)]
        raw, proc, _ = D.build(root / ("d%d" % k), mission=m, nav=[D.origin_rec()] + recs)
        v = dict(veh=track(rng, rng.randrange(1, 10)), cam1=[], cam2=[], recs=view, origin=origin)
        for i, p in enumerate(track(rng, rng.randrange(1, 10))):
            q = dict(p, t=p["t"] + 2, n=p["n"] + 140, e=p["e"] - 70, d=p["d"] + 30)
            for cam, r in ((0, p), (1, q)):
                base = "PR_%05d_%s.tif" % (i, names[cam])
                v["cam%d" % (cam + 1)].append(dict(r, name="image/i1/" + base, base=base))
        ekf = proc / "json_renav_20200101_120000_20200101_130000" / "csv" / "ekf"
        ekf.mkdir(parents=True)
        (ekf / "auv_ekf_centre.csv").write_text(tab(VH, v["veh"], False))
        for c in (0, 1):
            (ekf / ("auv_ekf_%s.csv" % names[c])).write_text(tab(CH, v["cam%d" % (c + 1)], True))
        st, val, con = lib.cli("auv_nav", "convert", "oplab_to_acfr", raw, out, *(["-F"] if force else []))
        o1, veh = pose_file(out / "vehicle_pose_est.data", False)
        o2, ste = pose_file(out / "stereo_pose_est.data", True)
        cfg = [round(float(x) * 1e6) for x in re.findall(r"MAG_VAR_L(?:AT|NG) (\S+)", (out / "mission.cfg").read_text())] if (out / "mission.cfg").exists() else []
        evs.append(dict(op="oplab", key="acfr", v=v, force=force, status=st, note=str(val)[-300:] if st == "crash" else "", after=dict(origin=[o1, o2], veh=veh, stereo=ste, lines=raw_lines(out / "dRAWLOGS_cv" / "combined.RAW.auv"), cfg=cfg)))
        if st == "ok":
            last = v
    back = root / "back"                            # and back: the vehicle's poses survive the round trip
    if last is not None:
        evs.append(dict(op="new"))
        pose = [dict({x: p[x] for x in ("t", "lat", "lon", "n", "e", "d", "h")}, x=p["a"][0], y=p["a"][1], z=p["a"][2]) for p in last["veh"]]
        st, val, _ = lib.cli("auv_nav", "convert", "acfr_to_oplab", "-o", back, "--vehicle-pose", out / "vehicle_pose_est.data")
        evs.append(dict(op="acfr", v=dict(veh=pose, rig=[], laser=[]), force=False, status=st, note=str(val)[-300:] if st == "crash" else "",
                        after=dict(centre=table(back / "auv_acfr_centre.csv", "timestamp"), left=[], right=[], laser=[], other=sorted(p.name for p in back.glob("*") if p.name != "auv_acfr_centre.csv") if back.exists() else [])))


# ----------------------------------------------------------------- hybis_to_oplab
def dm(u, pos, neg, w):
    """u: 1e-5 minutes -> dddmm.mmmmmX"""
    a = abs(u)
    return "%0*d%08.5f%s" % (w, a // 6000000, a % 6000000 / 1e5, pos if u >= 0 else neg)


def hybis(ctx, rng, evs, root):
    evs.append(dict(op="new"))
    img, nav = root / "raw/cruise/dive/image", root / "raw/cruise/dive/nav"
    img.mkdir(parents=True)
    nav.mkdir(parents=True)
    out = root / "processed/cruise/dive"
    out.mkdir(parents=True)
    sets = []
    south, west = rng.random() < .3, rng.random() < .5
    la0, lo0 = (-1 if south else 1) * rng.randrange(10 * 6000000, 60 * 6000000), (-1 if west else 1) * rng.randrange(1 * 6000000, 170 * 6000000)
    for k in range(rng.randrange(1, 4)):
        force = rng.random() < .4
        if not sets or rng.random() < .5:
            tr = track(rng, rng.randrange(3, 14), (1000, 6000))
            t = -(-tr[0]["t"] // 1000)
            for i, p in enumerate(tr):
                p["t"] = t * 1000
                t += rng.randrange(1, 7)
                p["mla"], p["mlo"] = la0 + rng.randrange(-1500, 1500), lo0 + rng.randrange(-1500, 1500)
                p["n"] = p["e"] = 0
                if 0 < i < len(tr) - 1 and rng.random() < .3:
                    f = rng.choice("dh")
                    if tr[i - 1][f] != 0:
                        p[f] = 0
                if i == 0 or i == len(tr) - 1:
                    p["d"] = max(p["d"], 1000)
            sets.append((tr, "f%d" % k))
            images = []
            (img / ("f%d" % k)).mkdir()
            for i in range(rng.randrange(1, 9)):
                ts = rng.choice([rng.randrange(tr[0]["t"], tr[-1]["t"] + 1), rng.choice(tr)["t"], rng.randrange(tr[0]["t"], tr[1]["t"] + 1), rng.randrange(tr[-2]["t"], tr[-1]["t"] + 1)])
                p = img / ("f%d" % k) / ("%02d.jpg" % i)
                p.write_text("x")
                os.utime(p, ns=(int(G.B * 1000 + ts) * 10 ** 6,) * 2)
                images.append(dict(name=str(p), t=ts))
            s = "Date ,Time,Roll,Pitch,Heading,Pressure,Altitude,Hybis Long,Hybis Lat\n"
            lines = []
            for p in tr:
                g = time.gmtime(G.B + p["t"] // 1000)
                lines.append([time.strftime("%d/%m/%Y", g), time.strftime("%H:%M:%S", g)] + [str(deg(x)) for x in p["a"]] + [p["d"] / 1e3, p["h"] / 1e3, dm(p["mlo"], "E", "W", 3), dm(p["mla"], "N", "S", 2)])
            rows = list(lines)
            if rng.random() < .4:                   # a record without a fix is not used
                rows.insert(rng.randrange(len(rows)), lines[0][:7] + ["0.0", "0.0"])
            (nav / ("f%d.csv" % k)).write_text(s + "".join(", ".join(str(c) for c in r) + "\n" for r in rows))
            c7 = lambda u: int(round(u / 60.0 * 100))     # 1e-5 minute -> 1e-7 degree
            ref = (la0 + rng.randrange(-900, 900), lo0 + rng.randrange(-900, 900))
            bl, bo = c7(la0), c7(lo0)
            s1, s2 = G.wgs(la0 / 6e6)
            view = dict(recs=[dict(t=p["t"], lat=c7(p["mla"]) - bl, lon=c7(p["mlo"]) - bo, n=0, e=0, d=p["d"], h=p["h"], a=p["a"]) for p in tr], images=images, ref=[c7(ref[0]) - bl, c7(ref[1]) - bo], scale=[s1, s2])
            sets[-1] = (view, "f%d" % k, ref, (bl, bo))
        view, name, ref, (bl, bo) = rng.choice(sets)
        a, b = (time.strftime("%Y%m%d_%H%M%S", time.gmtime(G.B + view["recs"][i]["t"] // 1000)) for i in (0, -1))
        st, val, con = lib.cli("auv_nav", "convert", "hybis_to_oplab", "-i", nav / (name + ".csv"), "-d", img / name, "-o", out, "--reference-lat=%r" % (ref[0] / 6e6), "--reference-lon=%r" % (ref[1] / 6e6), *(["-F"] if force else []))
        p = out / ("json_renav_%s_%s" % (a, b)) / "csv/dead_reckoning/auv_dr_hybis_camera.csv"
        rows = []
        if p.exists():
            head, *body = [x.split(",") for x in p.read_text().splitlines()]
            for c in body:
                r = dict(zip(head, c))
                q = row(dict(r, timestamp=r["timestamp"]), "timestamp")
                rows.append(dict(q, lat=mm(r["latitude [deg]"], 10 ** 7) - bl, lon=mm(r["longitude [deg]"], 10 ** 7) - bo, north=q["n"], east=q["e"], n=0, e=0, id=int(r["image_number"])))
        evs.append(dict(op="hybis", key=a + b, v=view, force=force, status=st, note=str(val)[-300:] if st == "crash" else "", after=dict(rows=rows)))


def n22(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Convert", "SPECIFICATION Spec\nCONSTANTS Outs = {\"centre\", \"cams\", \"laser\"}\nKinds = {\"alt\", \"ori\", \"vel\", \"late\", \"dep\"}\nMaxRun = %d\nMaxRec = %d\nINVARIANTS FoldAgrees FreshParts OneEach InOrder\nPROPERTY Protected\nCHECK_DEADLOCK FALSE\n" % (ctx.n(2, 3), ctx.n(5, 7)))
    evs = []
    for k in range(ctx.n(90, 900)):
        for f in (acfr, oplab, hybis):
            root = ctx.work / ("c%d%s" % (k, f.__name__))
            root.mkdir()
            f(ctx, rng, evs, root)
            shutil.rmtree(root, ignore_errors=True)
    for e in [e for e in evs if e["op"] != "new"][:3]:
        ctx.sample(json.dumps(e)[:900])
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in tlc_validate(ctx, "TraceConvert", evs, chunk=10 ** 9):
        ctx.violation(why, evs[i])
    ctx.notes["runs"] = {o: sum(e["op"] == o for e in evs) for o in ("acfr", "oplab", "hybis")}
    ctx.assumptions += ["the stereo rig of an ACFR file looks down and backwards, as its reader documents", "laser samples and hybis images outside the span of the poses are not judged"]


CHECKS = {"N22": n22}
