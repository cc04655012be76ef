"""N17 stereo pairing and N18 BioCam clock correction."""
import datetime as dt, json, shutil
from pathlib import Path
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_validate
UTC = dt.timezone.utc


def stamp(u):
    """0.1 ms units after the base day -> (date, time, microseconds)"""
    t = dt.datetime.fromtimestamp(R.BASE + u // 10000, UTC)
    return t.strftime("%Y%m%d"), t.strftime("%H%M%S"), (u % 10000) * 100


def rel(ts, scale=10000):
    return round((ts - R.BASE - W.NOON / 1000.0) * scale)


def dive_name(k):
    return "20200101_00%02d00_test_dive%d" % (k, k)


def image_world(ctx, rng, root, k, fmt, s, cams):
    w = W.World(root, dive=dive_name(k))
    w.mission["image"] = dict(format=fmt, cameras=cams, **s.cfg())
    w.vehicle = D.vehicle_dict(**{c["origin"]: dict(D.ZERO) for c in cams})
    w.phins = [R.ph_time(W.NOON), R.ph_dep("1.0", W.NOON)]
    return w


def times(rng, n, step):
    """n base times in multiples of `step' (0.1 ms), sometimes crowded"""
    span = rng.choice([4000, 20000, 100000])
    return [rng.randrange(0, span) // step * step for _ in range(n)]


def partners(rng, c1, step):
    c2 = []
    for t in c1:
        r = rng.random()
        if r < .75:
            c2.append(t + rng.choice([0, 0, 10, -10, 100, -300, 480, -490, 500, 510, -700, 2000]))
        if r < .2:
            c2.append(t + rng.choice([20, -150, 333, -440]) // step * step)
    c2 += [t for t in times(rng, rng.randrange(0, 3), step)]
    return [t // step * step for t in c2]


def distinct(ts):
    return list(dict.fromkeys(ts))


def build(ctx, rng, root, k, fmt):
    s = W.rand_sensor(rng)
    loc = lambda u: int(s.local(W.NOON) * 10 + u)
    n = rng.randrange(1, 7)
    ev = dict(op="pairs", indexed=False, tol=500, lasers=[], fmt=fmt)
    if fmt == "acfr_standard":
        cams = [{"name": "LC", "origin": "cam1", "path": "image/i1"}, {"name": "RC", "origin": "cam2", "path": "image/i1"}]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        c1 = distinct(times(rng, n, 10))
        c2 = [] if rng.random() < .15 else distinct(partners(rng, c1, 10))
        def nm(u, c):
            d, t, us = stamp(loc(u))
            return "PR_%s_%s_%03d_%s16.tif" % (d, t, us // 1000, c)
        ev["c1"] = [[u, nm(u, "LC")] for u in c1]
        ev["c2"] = [[u, nm(u, "RC")] for u in c2]
        w.images = [x[1] for x in ev["c1"] + ev["c2"]]
        rng.shuffle(w.images)
        if rng.random() < .5:
            w.images += ["._" + w.images[0], "notes_LC_RC.txt", "calib.log"]
        w.write()
        w.strip = str(w.raw) + "/image/i1/"
    elif fmt.startswith("biocam"):
        cams = [{"name": "cam111", "origin": "cam1", "path": "image"}, {"name": "cam222", "origin": "cam2", "path": "image"}]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        c1 = distinct(times(rng, n, 1))
        c2 = distinct(partners(rng, c1, 1))
        while not c2:
            c2 = distinct(partners(rng, c1, 1))
        las = distinct(times(rng, rng.randrange(0, 4), 1))
        w.write()
        longn = rng.random() < .8
        def nm(u, folder, ext):
            d, t, us = stamp(loc(u))
            cd, ct, cus = stamp(loc(u + rng.randrange(-30000, 30000)))
            name = ("%s_%s_%06d_%s_%s_%06d_pcoc.%s" % (d, t, us, cd, ct, cus, ext)) if True else ""
            p = "image/%s/%s" % (folder, name)
            f = w.raw / p
            f.parent.mkdir(parents=True, exist_ok=True)
            f.touch()
            return p
        ev["c1"] = [[u, nm(u, "cam111_strobe", "tif")] for u in c1]
        ev["c2"] = [[u, nm(u, "cam222_strobe", "tif")] for u in c2]
        ev["lasers"] = [[u, nm(u, "cam222_laser/%03d" % rng.randrange(3), "jpg")] for u in las]
        (w.raw / "image/cam111_strobe/log.txt").touch()
        (w.raw / "image/other").mkdir()
        (w.raw / "image/other/20200101_120000_000000_20200101_120000_000000_pcoc.tif").touch()
        w.strip = ""
    elif fmt == "ntnu_stereo":
        cams = [{"name": "left", "origin": "cam1", "path": "image/i1"}, {"name": "right", "origin": "cam2", "path": "image/i1"}]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        w.write()
        c1 = distinct(times(rng, n, 1))
        c2 = []
        while not c2:
            c2 = distinct(partners(rng, c1, 1))
        sub = rng.choice(["", "a/", "side/"])
        def nm(u, c):
            d, t, us = stamp(loc(u))
            p = "image/i1/%s%s-%s.%04d%s.jpg" % (sub + c + "/" if sub == "side/" else sub, d[2:], t, us // 100, c)
            (w.raw / p).parent.mkdir(parents=True, exist_ok=True)
            (w.raw / p).touch()
            return p
        order = [(u, "L") for u in c1] + [(u, "R") for u in c2]
        rng.shuffle(order)
        for u, c in order:
            nm(u, c)
        ev["c1"] = [[u, nm(u, "L")] for u in c1]
        ev["c2"] = [[u, nm(u, "R")] for u in c2]
        (w.raw / "image/i1/notes.txt").touch()
        w.strip = ""
    elif fmt == "rosbag_extracted_images":
        cams = [{"name": "cam", "origin": "cam1", "path": "image/i1"}]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        c1 = distinct(times(rng, n, 1))
        w.images = ["frame%d.%04d%05d.png" % (R.BASE + W.NOON // 1000 + u // 10000, u % 10000, rng.randrange(10) * 10) for u in c1]
        ev["c1"] = ev["c2"] = [[u, x] for u, x in zip(c1, w.images)]
        rng.shuffle(w.images)
        w.images = w.images + rng.choice([[], ["list.txt", "._" + w.images[0]]])
        w.write()
        w.strip = str(w.raw) + "/image/i1/"
    elif fmt == "stereo_gopro":
        cams = [{"name": "left", "origin": "cam1", "path": "image/left/"}, {"name": "right", "origin": "cam2", "path": "image/right/"}]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        w.write()
        for c in ("left", "right"):
            (w.raw / "image" / c).mkdir(parents=True)
        ev.update(indexed=True, c1=[], c2=[])
        rows = []
        for i, u in enumerate(times(rng, n, 1)):
            f = ["G%07d.JPG" % (rng.randrange(10) * 1000 + i * 10 + c) for c in range(2)]
            have = [rng.random() < .85 for _ in f]
            rows.append("%d,%s,%s,%d.%04d" % (i, f[0], f[1], R.BASE + W.NOON // 1000 + u // 10000, u % 10000))
            for h, c, x in zip(have, ("left", "right"), f):
                if h:
                    (w.raw / "image" / c / x).touch()
            if all(have):
                ev["c1"].append([u, "image/left/" + f[0]])
                ev["c2"].append([u, "image/right/" + f[1]])
        (w.raw / "image/filelist.csv").write_text("number_left,file_left,file_right,epoch\n" + "\n".join(rows) + "\n")
        w.strip = ""
    elif fmt == "voyis":
        s.off = 0
        cams = [{"name": "stills", "origin": "cam1", "path": "image/stills"}, {"name": "laser", "origin": "cam2", "path": "image/laser"}]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        w.write()
        ev.update(op="singles", imgs=[])
        pre = {"stills": "raw_stills_raw_", "laser": "laser_laser_raw_"}
        have = rng.choice([["stills"], ["laser"], ["stills", "laser"], ["laser", "stills"]])
        desc = []
        for c in have:
            pat = lambda x: "x" * (len(pre[c]) + len(x) + 1) + "YYYYxMMxDDxhhmmssxfffuuuxx.xxx"
            desc.append(dict(name=c, path="image/" + c, filename_to_date_pps=pat("PPS"), filename_to_date_system=pat("SYSTEM")))
            (w.raw / "image" / c).mkdir(parents=True)
            for i, u in enumerate(times(rng, n, 1)):
                d, t, us = stamp(loc(u))
                p = "image/%s/%s%s%s_%s-%s-%sT%s.%06d_%d.tif" % (c, rng.choice(["", "sub/", "a/b/"]), pre[c], rng.choice(["PPS", "SYSTEM"]), d[:4], d[4:6], d[6:], t, us, i)
                (w.raw / p).parent.mkdir(parents=True, exist_ok=True)
                (w.raw / p).touch()
                ev["imgs"].append([u, p])
        (w.raw / "image" / have[0] / "notes.txt").touch()
        (w.raw / "camera.yaml").write_text(json.dumps(dict(camera_system="voyis", cameras=desc)))
        w.strip = ""
    else:  # seaxerocks_3: the index file lists one stereo pair per row
        offs = [rng.choice([0, 0.5, -0.25, 12.0]) for _ in range(3)]
        cams = [{"name": "Cam51", "origin": "cam1", "path": "image/Xviii/Cam51"},
                {"name": "Cam52", "origin": "cam2", "path": "image/Xviii/Cam52"},
                {"name": "LM165", "origin": "cam3", "path": "image/LM165", "records_laser": True}]
        key = rng.choice(["timeoffset", "timeoffset_s", None])
        for c, o in zip(cams, offs):
            if key:
                c[key] = o
        if not key:
            offs = [0, 0, 0]
        w = image_world(ctx, rng, root, k, fmt, s, cams)
        w.write()
        first = rng.choice([0, 7, 998, 9998])
        c = [u for u in times(rng, n, 10)]
        (w.raw / "image/Xviii/Cam51").mkdir(parents=True)
        (w.raw / "image/LM165").mkdir(parents=True)
        row = lambda i, u: "%07d,%s,%s,%03d\n" % (i, stamp(loc(u))[0], stamp(loc(u))[1], stamp(loc(u))[2] // 1000)
        (w.raw / "image/Xviii/FileTime.csv").write_text("index,date,time,ms\n" + "".join(row(first + i, u) for i, u in enumerate(c)))
        las = times(rng, rng.randrange(0, 5), 10)
        fl = rng.choice([0, 5, 997, 123456])
        (w.raw / "image/LM165/FileTime.csv").write_text("index,date,time,ms\n" + "".join(row(fl + i, u) for i, u in enumerate(las)))
        sub, ext = rng.choice([0, 1]), rng.choice(["jpg", "tif"])
        def lname(i):
            x = "%07d" % i
            p = "image/LM165/%s/image%s.%s" % (x[sub:sub + 3], x, ext)
            (w.raw / p).parent.mkdir(parents=True, exist_ok=True)
            (w.raw / p).touch()
            return p
        o = [int(x * 10000) for x in offs]
        ev["indexed"] = True
        ev["c1"] = [[u + o[0], "image/Xviii/Cam51/%07d.raw" % (first + i)] for i, u in enumerate(c)]
        ev["c2"] = [[u + o[1], "image/Xviii/Cam52/%07d.raw" % (first + i)] for i, u in enumerate(c)]
        ev["lasers"] = [[u + o[2], lname(fl + i)] for i, u in enumerate(las)]
        w.strip = ""
    return w, ev


def read(w, st):
    recs, lrecs = [], []
    for r in (w.nav() if st == "ok" else []):
        if r["category"] == "image" and r.get("sensor") == "voyis":
            recs.append([rel(r["camera1"][0]["epoch_timestamp"]), r["camera1"][0]["filename"], rel(r["epoch_timestamp"])])
        elif r["category"] == "image":
            a, b = r["camera1"][0], r["camera2"][0]
            cut = lambda f: f[len(w.strip):] if f.startswith(w.strip) else f
            recs.append([rel(a["epoch_timestamp"]), cut(a["filename"]), rel(b["epoch_timestamp"]), cut(b["filename"]),
                         rel(r["epoch_timestamp"])])
        elif r["category"] == "laser":
            c = r["camera3"][0] if "camera3" in r else r
            lrecs.append([rel(c["epoch_timestamp"]), c["filename"]])
    return recs, lrecs


STEREO = ["acfr_standard", "biocam4000_15c", "seaxerocks_3", "ntnu_stereo", "stereo_gopro", "rosbag_extracted_images", "voyis"]


def n17(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "StereoPairs", "SPECIFICATION Spec\nCONSTANTS MaxT = %d MaxN = %d Tol = 1 NDives = %d\n"
              "INVARIANTS PairsRight NeverDouble HistoryFree\nCHECK_DEADLOCK FALSE\n" % ctx.n((2, 2, 2), (3, 2, 2)))
    evs = []
    for k in range(ctx.n(56, 700)):
        root = ctx.work / ("s%d" % k)
        nd = rng.choice([1, 2, 2, 3])
        fmts = [STEREO[k % len(STEREO)]] * nd
        if rng.random() < .3:
            fmts = [rng.choice(STEREO) for _ in range(nd)]
        ws = [build(ctx, rng, root, i, f) for i, f in enumerate(fmts)]
        st, val, con = run_code(parse, [str(w.raw) for w, _ in ws], False, False)
        for w, ev in ws:
            ok = st if st != "ok" or (w.proc / "nav/nav_standard.json").exists() else "missing"
            recs, lrecs = read(w, ok)
            ev.update(status=ok, recs=recs, lrecs=lrecs, note=str(val)[-500:] if st != "ok" else "")
            evs.append(ev)
        shutil.rmtree(root, ignore_errors=True)
    for e in evs[:3]:
        ctx.sample(e)
    bad = tlc_validate(ctx, "TraceStereo", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["pairs_recorded"] = sum(len(e["recs"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["image names within one folder are distinct; BioCam dives have at least one image per camera"]


def n18(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "Clock", "SPECIFICATION Spec\nCONSTANTS MaxX = %d MaxY = 3 NPts = %d\nINVARIANTS NeverLate Touches Trend\n"
              "CHECK_DEADLOCK FALSE\n" % ctx.n((3, 3), (3, 4)))
    evs = []
    for k in range(ctx.n(40, 500)):
        root = ctx.work / ("b%d" % k)
        nd = rng.choice([1, 1, 2])
        ws = []
        for d in range(nd):
            s = W.rand_sensor(rng)
            loc = lambda ms, s=s: int(s.local(W.NOON) + ms)
            cams = [{"name": "cam111", "origin": "cam1", "path": "image"}, {"name": "cam222", "origin": "cam2", "path": "image"}]
            w = image_world(ctx, rng, root, d, "biocam", s, cams)
            w.write()
            n = rng.randrange(3, 9)
            span = rng.choice([6000, 20000])
            base = sorted(rng.sample(range(0, span, 200), n))
            noise = rng.choice([20, 60, 120])        # below the spacing: partners are unique
            off = [rng.randrange(-5000, 5000) for _ in range(2)]
            drift = [rng.choice([0, 0, 5, -8, 20]) for _ in range(2)]     # per mille
            gen = {}
            def put(cam, folder, cpu_true, ext):
                camt = round(cpu_true * (1000 + drift[cam]) / 1000) + off[cam]
                cpu = cpu_true + rng.randrange(0, noise)
                p = "image/%s/%s_%s_%06d_%s_%s_%06d_pcoc.%s" % ((folder,) + stamp(loc(cpu) * 10) + stamp(loc(camt) * 10) + (ext,))
                f = w.raw / p
                f.parent.mkdir(parents=True, exist_ok=True)
                f.touch()
                gen[p] = (camt, cpu)
                return cpu
            pairs = 0
            for t in base:
                a = put(0, "cam111_strobe", t, "tif")
                # the partner is stamped within the tolerance of the first camera
                camt = round(t * (1000 + drift[1]) / 1000) + off[1]
                cpu = a + rng.choice([0, 3, -3, 20])
                p = "image/cam222_strobe/%s_%s_%06d_%s_%s_%06d_pcoc.tif" % (stamp(loc(cpu) * 10) + stamp(loc(camt) * 10))
                f = w.raw / p
                f.parent.mkdir(parents=True, exist_ok=True)
                f.touch()
                gen[p] = (camt, cpu)
            las = rng.sample(range(0, span, 130), rng.randrange(0, 5))
            for t in las:
                put(1, "cam222_laser/001", t, "jpg")
            ws.append((w, gen, n, len([p for p in gen if "_laser" in p])))
        st, val, con = run_code(parse, [str(w.raw) for w, *_ in ws], False, False)
        for w, gen, n, nl in ws:
            ok = st if st != "ok" or (w.proc / "nav/nav_standard.json").exists() else "missing"
            g1, g2, foreign = {}, {}, 0
            for r in (w.nav() if ok == "ok" else []):
                ms = lambda t: rel(t, 1000)
                if r["category"] == "image":
                    for c, g in (("camera1", g1), ("camera2", g2)):
                        f = r[c][0]["filename"]
                        if f not in gen:
                            foreign += 1
                            continue
                        g[f] = [gen[f][0], gen[f][1], ms(r[c][0]["epoch_timestamp"])]
                        foreign += ms(r[c][0]["epoch_timestamp_cam"]) != gen[f][0] or ms(r[c][0]["epoch_timestamp_cpu"]) != gen[f][1]
                    foreign += ms(r["epoch_timestamp"]) != ms(r["camera1"][0]["epoch_timestamp"])
                elif r["category"] == "laser":
                    f = r["camera3"][0]["filename"]
                    if f not in gen:
                        foreign += 1
                        continue
                    g2[f] = [gen[f][0], gen[f][1], ms(r["camera3"][0]["epoch_timestamp"])]
                    foreign += ms(r["epoch_timestamp"]) != ms(r["camera3"][0]["epoch_timestamp"])
            evs.append(dict(op="clock", status=ok, groups=[list(g1.values()), list(g2.values())], foreign=int(foreign),
                            expect=[n, n + nl], nl=nl, note=str(val)[-500:] if st != "ok" else ""))
        shutil.rmtree(root, ignore_errors=True)
    for e in evs[:2]:
        ctx.sample(e)
    bad = tlc_validate(ctx, "TraceStereo", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in bad:
        ctx.violation(why, evs[i])


CHECKS = {"N17": n17, "N18": n18}
