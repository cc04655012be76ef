"""N26: auv_nav convert koyo20rov_to_oplab - ship logs, compass and image times to tables of image poses."""
import json, math, os, shutil, time
from geographiclib.geodesic import Geodesic
import lib, dive as D, navgen as G
from lib import tlc_model, tlc_validate

NAMES = ["A", "B", "Xviii_fore", "stbd", "cam3"]
CAMHEAD = "relative_path,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],timestamp [s],latitude [deg],longitude [deg]"


def latlon(ref, n, e):
    r = Geodesic.WGS84.Direct(ref[0], ref[1], math.degrees(math.atan2(e, n)), math.hypot(n, e) / 1000)
    return r["lat2"], r["lon2"]


def metres(ref, lat, lon):
    r = Geodesic.WGS84.Inverse(ref[0], ref[1], lat, lon)
    a = math.radians(r["azi1"])
    return round(r["s12"] * math.cos(a) * 1000), round(r["s12"] * math.sin(a) * 1000)


def civil(ms):
    g = time.gmtime(G.B + ms // 1000)
    return time.strftime("%Y%m%d", g), int(time.strftime("%H%M%S", g)), ms % 1000


class Logs:
    """what one dive logged"""
    def __init__(self, rng, t0):
        self.rng = rng
        self.t0 = t0                                   # whole seconds
        n = rng.randrange(2, 11)
        t, p, recs = t0, [rng.randrange(-60000, 60000), rng.randrange(-60000, 60000), rng.randrange(2000, 9 * 10 ** 5), rng.randrange(800, 6000)], []
        for _ in range(n):
            recs.append(dict(t=1000 * t, n=p[0], e=p[1], d=p[2], h=p[3]))
            t += rng.choice([1, 1, 1, 2, 2, 5])
            for k, s in enumerate((1200, 1200, 500, 300)):
                p[k] += rng.randrange(-s, s + 1)
            p[3] = max(p[3], 300)
        self.end = recs[-1]["t"]
        for r in recs:                                 # readings that failed
            for f in "dh":
                if rng.random() < .15:
                    r[f] = 0
        cut = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([0, 0, 1, 2]))))
        self.logs = [recs[a:b] for a, b in zip([0] + cut, cut + [n])]
        for log in self.logs:                          # the clock goes back
            for _ in range(rng.choice([0, 0, 1, 2])):
                i = rng.randrange(1, len(log) + 1)
                back = log[i - 1]["t"] - rng.choice([0, 1000, 2000, 86400000])
                if back >= 0:
                    log.insert(i, dict(t=back, n=rng.randrange(-9000, 9000), e=0, d=77, h=rng.choice([0, 99])))
        for log in self.logs:
            if rng.random() < .2:
                log.append(dict(blank=True))
            if rng.random() < .1:
                log.insert(0, dict(blank=True))
        rng.shuffle(self.logs)
        a, b = 1000 * t0 + rng.choice([-1500, -300, 0, 0, 700]), self.end + rng.choice([-900, 0, 0, 400, 2500])
        a, z, self.rot = max(a, 0), rng.choice([0, 9000, 35900, rng.randrange(36000)]), []
        x = [rng.randrange(-1500, 1500), rng.randrange(-1500, 1500)]
        while True:
            self.rot.append(dict(t=a, x=x[0], y=x[1], z=z))
            if a >= b:
                break
            a = min(b, a + rng.choice([100, 333, 1000, 1700]))
            z = (z + rng.choice([rng.randrange(-900, 901), rng.randrange(-900, 901), rng.randrange(-17500, 17501)])) % 36000
            x = [v + rng.randrange(-300, 301) for v in x]
        if rng.random() < .2 and len(self.rot) > 2:
            self.rot.insert(0, self.rot.pop())         # not in order
        self.lm, self.xv = self.images(1), self.images(2)

    def images(self, kind):
        rng, res, idx = self.rng, [], self.rng.choice([0, 1, 997, 9998, 12345])
        lo, hi = self.rot[0]["t"], self.end
        times = set()
        for _ in range(rng.choice([0, 1, 3, 6, 9])):
            x = rng.random()
            allt = [r["t"] for log in self.logs for r in log if "t" in r] + [r["t"] for r in self.rot]
            times.add(max(0, rng.choice(allt) if x < .35 else 1000 * self.t0 + rng.randrange(-2500, self.end - 1000 * self.t0 + 2500)))
        for t in sorted(times):
            res.append(dict(t=t, index=idx))
            idx += rng.choice([1, 1, 2, 1000])
        if rng.random() < .2:
            rng.shuffle(res)
        return res

    def like(self, rng):
        """the same dive logged again, readings and all but the span changed"""
        o = Logs.__new__(Logs)
        o.rng, o.t0, o.end = rng, self.t0, self.end
        o.logs = [[dict(r) for r in log] for log in self.logs]
        o.rot = [dict(r) for r in self.rot]
        for log in o.logs:
            for r in log:
                if "t" in r and rng.random() < .5:
                    r["d"] = r["d"] and max(1, r["d"] + rng.randrange(-400, 400))
                    r["n"] += rng.randrange(-500, 500)
        o.lm, o.xv = (o.images(1), o.images(2)) if rng.random() < .7 else (self.lm, self.xv)
        return o


def ship_row(rng, ref, r):
    c = ["%d" % i if i % 3 else "船" for i in range(34)]
    if "blank" in r:
        c[2:4] = rng.choice([["", ""], ["-", "-"], ["00", ""]])
        for k in (23, 24, 31, 32):
            c[k] = ""
    else:
        g = time.gmtime(G.B + r["t"] // 1000)
        c[2], c[3] = time.strftime(rng.choice(["%Y/%m/%d", "%y/%m/%d", "   %Y/%m/%d"]), g), time.strftime("%H:%M:%S", g)
        la, lo = latlon(ref, r["n"], r["e"])
        c[23], c[24], c[31], c[32] = repr(r["d"] / 1e3), repr(r["h"] / 1e3), repr(la), repr(lo)
    return ",".join(c)


class Dive:
    def __init__(self, rng, root):
        self.rng, self.root = rng, root
        self.ref = (rng.randrange(-60, 60) + rng.randrange(1000) / 1e3, rng.randrange(-170, 170) + rng.randrange(1000) / 1e3)
        self.raw = root / "raw/cruise/dive"
        arm = lambda: [rng.randrange(-3000, 3000) for _ in range(3)]
        self.cams = rng.sample(NAMES, 2)
        self.pos = {k: arm() for k in ["dvl", "depth", "LM165"] + self.cams}
        self.paths = ["image/Xviii/Cam%s" % rng.choice("51234") , "image/Xviii/other", "image/LM165"]

    def write(self, logs):
        rng, raw = self.rng, self.raw
        shutil.rmtree(raw, ignore_errors=True)
        m = D.mission_dict(origin=dict(latitude=self.ref[0], longitude=self.ref[1], coordinate_reference_system="wgs84", date="2020/01/01"), usbl=None)
        m["image"]["cameras"] = [dict(name=n, path=p) for n, p in zip(self.cams + ["LM165"], self.paths)]
        order = list(self.pos.items())
        rng.shuffle(order)
        v = {"origin": dict(D.ZERO), "ins": dict(D.ZERO), "usbl": dict(D.ZERO)}
        for k, a in order:
            v[k] = dict(D.ZERO, surge_m=a[0] / 1e3, sway_m=a[1] / 1e3, heave_m=a[2] / 1e3)
        D.build(self.root, dive="dive", mission=m, vehicle=v)
        for d in ("nav/ship_log", "nav/TCM", "image/LM165", "image/Xviii"):
            (raw / d).mkdir(parents=True)
        for i, log in enumerate(logs.logs):
            text = "\n".join(ship_row(rng, self.ref, r) for r in log) + "\n"
            (raw / "nav/ship_log" / ("2020-%02d.csv" % (i + 1))).write_bytes(text.encode("shift_jis"))
        if rng.random() < .3:                          # the fixes are kept in files of their own
            (raw / "nav/ship_log" / "2020-01_FIX.csv").write_text("a,b,c\n")
        s = "index,date(YYYYMMDD),time(hhmmss),time_ms(iiii),heading(degrees),pitch(degrees),roll(degrees)\n"
        for i, r in enumerate(logs.rot):
            d, t, ms = civil(r["t"])
            s += "%d,%s,%d,%d,%r,%r,%r\n" % (i, d, t, ms, r["z"] / 100, r["y"] / 100, r["x"] / 100)
        (raw / "nav/TCM/TCM.csv").write_text(s + (",,,,,,\n" if rng.random() < .3 else ""))
        for d, images in (("LM165", logs.lm), ("Xviii", logs.xv)):
            s = "index,date,time,ms\n"
            for m in images:
                dd, t, ms = civil(m["t"])
                s += "%d,%s,%d,%d\n" % (m["index"], dd, t, ms)
            (raw / "image" / d / "FileTime.csv").write_text(s + (",,,\n" if rng.random() < .3 and images else ""))

    def view(self, logs):
        def named(im):
            return [dict(t=m["t"], path=["%s/%03d/image%07d.tif" % (self.paths[2], m["index"] // 1000 % 1000, m["index"])] + ["%s/%07d.raw" % (p, m["index"]) for p in self.paths[:2]]) for m in im]
        sub = lambda a, b: [x - y for x, y in zip(self.pos[a], self.pos[b])]
        who = ["dvl"] + self.cams
        return dict(logs=[[r for r in log if "t" in r] for log in logs.logs], rot=logs.rot, lm=named(logs.lm), xv=named(logs.xv),
                    names=["auv_dr_LM165_at_dvl.csv"] + ["auv_dr_%s.csv" % c for c in self.cams],
                    dvl=[sub(w, "dvl") for w in who], dep=[sub(w, "depth") for w in who])

    def files(self):
        root = self.root / "processed/cruise/dive"
        return sorted(p for p in root.rglob("*") if p.is_file()) if root.exists() else []

    def key(self, p):
        rel = p.relative_to(self.root / "processed/cruise/dive").parts
        f = rel[0].split("_")
        ok = len(rel) == 4 and rel[1:3] == ("csv", "dead_reckoning") and rel[0].startswith("json_renav_") and len(f) == 6
        sec = lambda a, b: int(lib_epoch(a + b) - G.B)
        return dict(s=sec(f[2], f[3]), e=sec(f[4], f[5]), f=rel[3]) if ok else dict(s=-1, e=-1, f="/".join(rel))

    def after(self):
        res = []
        for p in self.files():
            head, *body = p.read_text().splitlines()
            rows = []
            for line in body:
                c = dict(zip([x.strip() for x in head.split(",")], [x.strip() for x in line.split(",")]))
                mm = lambda k, s=1000: lib.MISSING if not isfinite(c.get(k)) else int(round(float(c[k]) * s))
                la, lo = float(c["latitude [deg]"]), float(c["longitude [deg]"])
                pn, pe = metres(self.ref, la, lo) if math.isfinite(la + lo) else (10 ** 9, 10 ** 9)
                rows.append(dict(path=c["relative_path"], t=G.ms(float(c["timestamp [s]"])), n=mm("northing [m]"), e=mm("easting [m]"), d=mm("depth [m]"), h=mm("altitude [m]"),
                                 a=[mm("roll [deg]", 100), mm("pitch [deg]", 100), mm("heading [deg]", 100)], pn=pn, pe=pe))
            res.append(dict(k=self.key(p), rows=rows))
        return res


def isfinite(x):
    return x not in (None, "", "None") and math.isfinite(float(x))


def lib_epoch(s):
    import calendar
    return calendar.timegm(time.strptime(s, "%Y%m%d%H%M%S"))


def n26(ctx):
    rng = ctx.rng
    lib.MISSING = 10 ** 9
    tlc_model(ctx, "Koyo", "SPECIFICATION MSpec\nCONSTANTS Step = 1\nTs = {%s}\nVs = {0, 6}\nMaxLog = %d\nMaxRun = 2\n"
              "INVARIANTS InTime FirstKept Idempotent Filled Covered Short\nPROPERTY Protected\nCHECK_DEADLOCK FALSE\n" % (ctx.n("0, 2", "0, 1, 3"), 2))
    evs, zones = [], ["UTC", "Asia/Tokyo", "America/New_York", "Pacific/Kiritimati"]
    old = os.environ.get("TZ")
    for k in range(ctx.n(110, 1100)):
        root = ctx.work / ("k%d" % k)
        root.mkdir()
        dv = Dive(rng, root)
        evs.append(dict(op="new"))
        seen = []
        for _ in range(rng.randrange(1, 5)):
            if seen and rng.random() < .25 and dv.files():
                gone = rng.sample(dv.files(), rng.randrange(1, min(3, len(dv.files())) + 1))
                evs.append(dict(op="gone", keys=[dv.key(p) for p in gone]))
                for p in gone:
                    p.unlink()
            x = rng.random()
            logs = Logs(rng, rng.choice([5, 43170, 43199, rng.randrange(5, 3 * 86400)])) if not seen or x < .3 else rng.choice(seen) if x < .6 else rng.choice(seen).like(rng)
            seen.append(logs)
            if rng.random() < .15:                     # a camera renamed in between
                a = rng.choice([n for n in NAMES if n not in dv.cams])
                i = rng.randrange(2)
                dv.pos[a] = dv.pos.pop(dv.cams[i])
                dv.cams[i] = a
            dv.write(logs)
            force = rng.random() < .5
            os.environ["TZ"] = rng.choice(zones)
            time.tzset()
            try:
                st, val, con = lib.cli("auv_nav", "convert", "koyo20rov_to_oplab", "-i", rng.choice([p for p in (dv.raw, dv.root / "processed/cruise/dive") if p.exists()]), *(["-F"] if force else []))
            finally:
                if old is None:
                    os.environ.pop("TZ", None)
                else:
                    os.environ["TZ"] = old
                time.tzset()
            if st == "crash" and "AssertionError" in str(val) and "already exists" in con or st == "quit":
                st = "refused"
            evs.append(dict(op="run", v=dv.view(logs), force=force, status=st, note=str(val)[-300:] if st == "crash" else "", after=dv.after()))
        shutil.rmtree(root, ignore_errors=True)
    runs = [e for e in evs if e["op"] == "run"]
    for e in runs[:2]:
        ctx.sample(json.dumps(e)[:900])
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in tlc_validate(ctx, "TraceKoyo", evs, chunk=10 ** 9):
        ctx.violation(why, evs[i])
    ctx.notes.update(runs=len(runs), refused=sum(e["status"] == "refused" for e in runs), rows=sum(len(t["rows"]) for e in runs for t in e["after"]))
    ctx.assumptions += ["the vehicle file names a camera as the mission does", "records of different ship logs have different times", "records and images away from the 180 degree meridian and the poles"]


CHECKS = {"N26": n26}
