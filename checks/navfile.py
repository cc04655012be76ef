"""N01 navigation file, N02 merging."""
import datetime as dt, json, random, shutil, time
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_validate, tree_hash

E0 = R.epoch(2000, 1, 1)
UTC = dt.timezone.utc


def daymsec(ts):
    ms = round((ts - E0) * 1000)
    return [ms // 86400000, ms % 86400000]


class Delays:
    """make the log parsers finish in a random order: delay every parse_* callable that parse.py calls"""
    def __init__(self, rng, on=True):
        self.rng, self.on = rng, on

    def __enter__(self):
        import auv_nav.parse as ap
        self.ap, self.old = ap, {}
        keep = ("parse_single", "parse_interlacer")
        for k, f in list(vars(ap).items()):
            if k.startswith("parse_") and callable(f) and k not in keep and self.on:
                self.old[k] = f
                setattr(ap, k, self.wrap(f))

    def wrap(self, f):
        slot = [self.rng.choice([0, 0.005, 0.01, 0.02, 0.03]) for _ in range(8)]
        n = [0]

        def g(*a, **kw):
            i = n[0] % 8
            n[0] += 1
            time.sleep(slot[i] * .5)
            r = f(*a, **kw)
            time.sleep(slot[(i + 3) % 8])
            return r
        g.__name__ = getattr(f, "__name__", "g")
        return g

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.ap, k, f)


def gen_dive(rng, root, name, origin=(26.0, 127.0), rich=True, kinds=None):
    """a dive with a random subset of sensors; returns (world, want)"""
    w = W.World(root, dive=name)
    w.mission["origin"].update(latitude=origin[0], longitude=origin[1])
    want = []
    kinds = kinds or [k for k in ("velocity", "orientation", "depth", "altitude", "usbl", "image") if rng.random() < .75] or ["depth"]
    day = rng.choice(["20200101", "20200101", "20010905", "20010909", "20330518"]) if rich else "20200101"
    base = int(dt.datetime.strptime(day, "%Y%m%d").replace(tzinfo=UTC).timestamp())
    grid = rng.choice([1, 100, 500])
    T = lambda: W.NOON + rng.randrange(0, 4000) // grid * grid
    n = rng.randrange(1, 8)
    ins = W.rand_sensor(rng)
    lines = [R.ph_attstd(.1, .2, .3)]
    vid = rng.randrange(1, 50)
    for _ in range(n):
        ms = T()
        L = ins.local(ms)
        tm = daymsec(base + ms / 1000)
        lines.append(R.ph_time(L))
        msgs = []
        if rng.random() < .8:
            vid += 1
            msgs.append(([R.ph_head("%.1f" % (vid / 10)), R.ph_att(1.0, 2.0)], ["orientation"] + tm + [vid]))
        if rng.random() < .8:
            vid += 1
            msgs.append(([R.ph_dvl("%.2f" % (vid / 100), .1, .2, L)], ["velocity"] + tm + [vid]))
        if rng.random() < .4:
            vid += 1
            msgs.append(([R.ph_vel(".1", "%.2f" % (vid / 100), .2)], ["ivelocity"] + tm + [vid]))
        if rng.random() < .8:
            vid += 1
            msgs.append(([R.ph_dep("%.1f" % (vid / 10), L)], ["depth"] + tm + [vid]))
        rng.shuffle(msgs)
        if rng.random() < .8:
            vid += 1
            msgs.append(([R.ph_dvl("%.2f" % ((vid + 500) / 100), .1, .2, L), R.ph_alt(1500, 0, "%.1f" % (vid / 10))],
                         ["altitude"] + tm + [vid], ["velocity"] + tm + [vid + 500]))
        for m in msgs:
            lines += m[0]
            want += m[1:]
    w.phins = lines
    w.phins_name = day + "_phins.txt"
    for k in ("velocity", "orientation", "depth", "altitude"):
        if k in kinds:
            w.mission[k].update(ins.cfg(), filename=w.phins_name)
        elif k != "velocity":
            w.mission.pop(k)
    if "velocity" not in kinds:
        w.mission["velocity"].update(ins.cfg(), filename=w.phins_name)
        kinds = kinds + ["velocity"]
    sel = {"velocity": ("velocity", "ivelocity")}
    want = [x for x in want if any(x[0] in sel.get(k, (k,)) for k in kinds)]
    fn = {}
    if "usbl" in kinds:
        gs = W.rand_sensor(rng)
        w.mission["usbl"] = dict(W.USBL_CFG, **gs.cfg())
        w.gaps = {"a.dat": [], "b.dat": []}
        for i in range(rng.randrange(0, 5)):
            ms = T()
            vid += 1
            w.gaps[rng.choice(["a.dat", "b.dat"])] += W.fix(ms, gs, "%.1f" % (vid / 10), lat=origin[0] + .001, lon=origin[1] + .001)
            want.append(["usbl"] + daymsec(R.BASE + ms / 1000) + [vid])
    else:
        w.mission.pop("usbl", None)
    if "image" in kinds:
        s = W.rand_sensor(rng)
        w.mission["image"] = dict(W.IMAGE_CFG, **s.cfg())
        ib = R.epoch(rng.choice([2000, 2000, 2020, 2001]), 1, 1) if rich else R.BASE
        w.images = []
        for ms in {T() for _ in range(rng.randrange(1, 6))}:
            for c in ("LC", "RC"):
                w.images.append(R.acfr_name(s.local(ms), c, base=ib))
            fn[w.images[-2]] = ms
            want.append(["image"] + daymsec(ib + ms / 1000) + [ms])
        rng.shuffle(w.images)
    w.fn = fn
    w.write()
    p = w.raw / "nav/phins/20200101_phins.txt"
    if p.name != w.phins_name:
        p.rename(p.parent / w.phins_name)
    return w, want


def rows(nav, fn=None):
    out = []
    for r in nav:
        c = r["category"]
        if c == "origin":
            continue
        f = r["data"][0] if "data" in r else None
        if c == "velocity" and r["frame"] == "inertial":
            c, v = "ivelocity", f["north_velocity"] * 100
        elif c == "velocity":
            v = f["x_velocity"] * 100
        elif c == "orientation":
            v = f["heading"] * 10
        elif c == "depth":
            v = f["depth"] * 10
        elif c == "altitude":
            v = f["altitude"] * 10
        elif c == "usbl":
            v = r["data_target"][4]["depth"] * 10
        elif c == "image":
            v = (fn or {}).get(r["camera1"][0]["filename"].split("/")[-1], -1)
        out.append([c] + daymsec(r["epoch_timestamp"]) + [round(v)])
    return out


def origin_of(nav):
    o = nav[0]
    if o["category"] != "origin" or any(r["category"] == "origin" for r in nav[1:]):
        return []
    return [round(o["data"][0]["latitude"] * 1e6), round(o["data"][0]["longitude"] * 1e6)]


def unusable(ctx, rng, evs):
    """logs or descriptions that cannot be used: the command has to stop and leave no navigation file"""
    import yaml
    from auv_nav.parse import parse
    lib._limit[0] = min(lib._limit[0], 60)
    for k in range(ctx.n(10, 60)):
        w, want = gen_dive(rng, ctx.work / ("u%d" % k), D.DIVE, kinds=["velocity", "orientation", "depth", "altitude", "usbl", "image"])
        kind = ["timezone", "nolog", "format", "nofile", "bag"][k % 5]
        sensor = rng.choice(["velocity", "orientation", "depth", "altitude", "usbl", "image"])
        if kind == "nolog":
            shutil.rmtree(w.raw / {"usbl": "nav/gaps", "image": "image"}.get(sensor, "nav/phins"))
        elif kind == "nofile":          # one PHINS log serves all sensors and is described at the velocity
            sensor = "velocity"
            w.mission[sensor]["filename"] = "20200101_other.txt"
        elif kind == "timezone":
            sensor = rng.choice(["velocity", "usbl", "image"])
            w.mission[sensor]["timezone"] = "somewhere"
        elif kind == "bag":             # a log that needs software (and a file) that is not there
            w.mission[sensor].update(format="rosbag", filename="no.bag", filepath="nav/bag")
        else:
            w.mission[sensor]["format"] = "unheard_of"
        (w.raw / "mission.yaml").write_text(yaml.safe_dump(w.mission, sort_keys=False))
        with Delays(rng):
            st, val, con = lib.nav_parse([w.raw], bool(rng.randrange(2)))
        if st == "crash" and str(val).startswith("Hang"):
            st = "hang"
        evs.append(dict(op="unusable", status=st, what=kind + " " + sensor, written=(w.proc / "nav/nav_standard.json").exists(), got=[], note=str(val)[-300:]))
        shutil.rmtree(w.root, ignore_errors=True)


def n01(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "NavFile", "SPECIFICATION Spec\nCONSTANTS NParsers = %d MaxLen = 2 MaxT = %d\n"
              "INVARIANTS Complete Chronological ScheduleFree\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % ctx.n((2, 3), (3, 2)))
    evs = []
    for k in range(ctx.n(40, 500)):
        origin = rng.choice([(26.0, 127.0), (-33.0, 151.0), (50.5, -4.25)])
        w, want = gen_dive(rng, ctx.work / ("n%d" % k), D.DIVE, origin)
        with Delays(rng):
            st, val, con = lib.nav_parse([w.raw])
        nav = w.nav() if st == "ok" else []
        with Delays(rng):
            st2, val2, con2 = lib.nav_parse([w.raw], True)
        nav2 = w.nav() if st2 == "ok" else []
        evs.append(dict(op="dive", status=st, want=want, got=rows(nav, w.fn), again=rows(nav2, w.fn), same=nav == nav2,
                        origin=[round(origin[0] * 1e6), round(origin[1] * 1e6)], first=origin_of(nav) if nav else [],
                        note=str(val)[-600:] if st != "ok" else ""))
        shutil.rmtree(w.root, ignore_errors=True)
    unusable(ctx, rng, evs)
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceNavFile", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["readings"] = sum(len(e["got"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["schedules of the real thread pool are sampled with random delays around every log parser"]


# ------------------------------------------------------------------ N02
import stereo as ST


def full_dive(rng, root, k, origin, t0, fmt):
    """a dive with all sensors sampled regularly for a few seconds; images by format"""
    name = "20200101_%02d%02d%02d_dive_%s" % (rng.randrange(0, 3), k, rng.randrange(60), "abcdef"[k])
    s = W.Sensor()
    cams = {"acfr_standard": [("LC", "cam1", "image/i1"), ("RC", "cam2", "image/i1")],
            "biocam4000_15c": [("cam111", "cam1", "image"), ("cam222", "cam2", "image")],
            "seaxerocks_3": [("Cam51", "cam1", "image/Xviii/Cam51"), ("Cam52", "cam2", "image/Xviii/Cam52"), ("LM165", "cam3", "image/LM165")]}[fmt]
    w = W.World(root, dive=name)
    w.mission["origin"].update(latitude=origin[0], longitude=origin[1])
    w.mission["image"] = dict(format=fmt, timezone="utc", timeoffset=0.0,
                              cameras=[dict(name=a, origin=b, path=c) for a, b, c in cams])
    if len(cams) == 3:
        w.mission["image"]["cameras"][2]["records_laser"] = True
    w.mission["usbl"] = dict(W.USBL_CFG)
    w.vehicle = D.vehicle_dict(cam3=dict(D.ZERO))
    w.phins, w.gaps = [R.ph_attstd(.1, .2, .3), R.ph_velstd(.1, .1, .1)], {"a.dat": []}
    n = 6
    w.vehicle["dvl"] = D.frame(surge=.1 * k)
    for i in range(n):
        ms = W.NOON + t0 + i * 1000
        w.phins += [R.ph_time(ms), R.ph_velstd(.1, .1, .1), R.ph_vel(.1, .2, .0), R.ph_head("%.1f" % rng.randrange(360)), R.ph_att(1.0, 2.0),
                    R.ph_dvl("%.1f" % rng.random(), .1, .2, ms),
                    R.ph_alt(1500, 0, "%.1f" % (5 + i)), R.ph_dep("%.1f" % (20 + rng.randrange(9)), ms)]
        w.phins += [w.phins[-1]] * (rng.random() < .2)
    for i in range(3):
        w.gaps["a.dat"] += W.fix(W.NOON + t0 + 1200 + 1500 * i, s, "20.0", lat=origin[0] + .001, lon=origin[1] + .001)
    ts = [t0 + 700 + 1100 * i for i in range(3)]
    lt = [t0 + 1250, t0 + 2050]
    if fmt == "acfr_standard":
        w.images = [R.acfr_name(W.NOON + t, c) for t in ts for c in ("LC", "RC")]
    w.write()
    nm = lambda t, ext: "%s_%s_%06d_%s_%s_%06d_pcoc.%s" % (ST.stamp((W.NOON + t) * 10) * 2 + (ext,))
    def touch(p):
        f = w.raw / p
        f.parent.mkdir(parents=True, exist_ok=True)
        f.touch()
    if fmt == "biocam4000_15c":
        for t in ts:
            touch("image/cam111_strobe/" + nm(t, "tif"))
            touch("image/cam222_strobe/" + nm(t + 3, "tif"))
        for t in lt:
            touch("image/cam222_laser/000/" + nm(t, "jpg"))
    if fmt == "seaxerocks_3":
        row = lambda i, t: "%07d,%s,%s,%03d\n" % ((i,) + ST.stamp((W.NOON + t) * 10)[:2] + (ST.stamp((W.NOON + t) * 10)[2] // 1000,))
        touch("image/Xviii/FileTime.csv")
        touch("image/LM165/FileTime.csv")
        (w.raw / "image/Xviii/FileTime.csv").write_text("index,date,time,ms\n" + "".join(row(i, t) for i, t in enumerate(ts)))
        (w.raw / "image/LM165/FileTime.csv").write_text("index,date,time,ms\n" + "".join(row(i, t) for i, t in enumerate(lt)))
        touch("image/LM165/000/image0000001.jpg")
        (w.raw / "image/Xviii/Cam51").mkdir(parents=True)
    conf = D.auv_nav_dict()
    w.conf.mkdir(parents=True, exist_ok=True)
    return w


def merge_rows(nav):
    """<<kind, day, ms, value, files>>"""
    out = []
    for r in nav:
        if r["category"] == "origin":
            continue
        r = json.loads(json.dumps(r))
        t = daymsec(r.pop("epoch_timestamp"))
        files = []
        for c in ("camera1", "camera2", "camera3"):
            if c in r:
                files.append(r[c][0].pop("filename"))
        if "filename" in r:
            files.append(r.pop("filename"))
        out.append([r["category"]] + t + [json.dumps(r, sort_keys=True), files])
    return out


def n02(ctx):
    from auv_nav.parse import parse
    from auv_nav.process import process
    import yaml
    rng = ctx.rng
    tlc_model(ctx, "Merge", "SPECIFICATION Spec\nCONSTANTS NDives = %d MaxRows = %d MaxT = 1\nINVARIANTS Right RefusedRight\n"
              "CHECK_DEADLOCK FALSE\n" % ctx.n((2, 2), (3, 2)))
    evs = []
    for k in range(ctx.n(26, 300)):
        root = ctx.work / ("m%d" % k)
        nd = rng.choice([2, 2, 3, 4])
        diff = rng.random() < .25
        fmt = rng.choice(["acfr_standard", "biocam4000_15c", "seaxerocks_3"])
        starts = [i * rng.choice([2500, 8000, 20000]) for i in range(nd)]
        rng.shuffle(starts)
        ws = []
        for i in range(nd):
            o = (26.0, 127.0) if not (diff and i == nd - 1) else rng.choice([(26.5, 127.0), (26.0, 127.5), (26.00001, 127.0), (26.0, 126.99998)])
            ws.append(full_dive(rng, root, i, o, starts[i], fmt))
        rng.shuffle(ws)
        alone, apart = {}, rng.random() < .6
        # parsed on their own first (some of them): merging then must reuse or reproduce the same files
        for w in ws:
            if apart and rng.random() < .6:
                st, val, con = lib.nav_parse([w.raw])
                alone[w.dive] = w.nav() if st == "ok" else None
        before = {w.dive: tree_hash(w.raw) for w in ws}
        force = rng.random() < .3
        st, val, con = lib.nav_parse([w.raw for w in ws], force, True)
        dives, kept = [], True
        for w in ws:
            nav = w.nav() if (w.proc / "nav/nav_standard.json").exists() else []
            kept = kept and bool(nav) and (w.dive not in alone or alone[w.dive] == nav) and before[w.dive] == tree_hash(w.raw)
            dives.append(dict(name=w.dive, origin=origin_of(nav) if nav else [], rows=merge_rows(nav)))
        md = [p for p in ws[0].proc.parent.glob("*_merged") if (p / "nav/nav_standard.json").exists()]
        named = len(md) == 1 and md[0].name == "%s_%s_merged" % tuple(f(w.dive[:8] + w.dive[9:15] for w in ws) for f in (min, max))
        described = len(md) == 1 and all((md[0] / f).exists() and (md[0] / f).read_bytes() == (ws[0].raw / f).read_bytes() for f in ("mission.yaml", "vehicle.yaml", "camera.yaml"))
        merged = json.loads((md[0] / "nav/nav_standard.json").read_text()) if len(md) == 1 else []
        proc, prefixes, pv = "skip", [], ""
        if merged and not diff:
            conf = root / "configuration/cruise" / md[0].name
            conf.mkdir(parents=True, exist_ok=True)
            (conf / "auv_nav.yaml").write_text(yaml.safe_dump(D.auv_nav_dict(), sort_keys=False))
            proc, pv, _ = lib.nav_process(md[0])
            for f in md[0].glob("json_renav_*/csv/dead_reckoning/auv_dr_%s.csv" % ws[0].mission["image"]["cameras"][0]["name"]):
                for line in f.read_text().splitlines()[1:]:
                    prefixes.append(line.split(",")[0].split("/")[0])
        evs.append(dict(op="merge", status=st, dives=dives, merged=merge_rows(merged), first=origin_of(merged) if merged else [],
                        kept=bool(kept), named=named, described=described, processed=proc, prefixes=sorted(set(prefixes)), note=str(val)[-600:] + str(pv)[-600:]))
        shutil.rmtree(root, ignore_errors=True)
    ctx.sample(json.dumps(evs[0])[:500])
    bad = tlc_validate(ctx, "TraceMerge", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in bad:
        ctx.violation(why, {k: v for k, v in evs[i].items() if k not in ("dives", "merged")})


CHECKS = {"N01": n01, "N02": n02}
