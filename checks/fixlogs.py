"""N20: logs of acoustic fixes of every format other than GAPS."""
import datetime as dt, math, os, shutil, time
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_validate
UTC = dt.timezone.utc
ZONES = ["UTC", "Asia/Tokyo", "America/New_York", "Europe/Oslo"]
ORIGINS = [(26, 127), (-26, -127), (50, -4), (-33, 151), (0, 0)]
UNIT = 600000


def metres(lat):
    """mm per 1/10000 minute of latitude / longitude (WGS84)"""
    a, e2 = 6378137.0, 0.0066943799901413165
    w = 1 - e2 * math.sin(math.radians(lat)) ** 2
    k = math.radians(1 / UNIT) * 1000
    return k * a * (1 - e2) / w ** 1.5, k * a * math.cos(math.radians(lat)) / w ** .5


class Zone:
    """the machine's own time zone"""
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *a):
        os.environ.pop("TZ") if self.old is None else os.environ.update(TZ=self.old)
        time.tzset()


def stamp(ms):
    return dt.datetime.fromtimestamp(R.BASE, UTC) + dt.timedelta(milliseconds=ms)


def arc(k):
    """1/10000 minutes -> [degrees, minutes, negative]"""
    return [abs(k) // UNIT, abs(k) % UNIT, k < 0]


def dm(a, w):
    return "%0*d%07.4f" % (w, a[0], a[1] / 10000)


def deg(a):
    return "%.9f" % ((-1 if a[2] else 1) * (a[0] + a[1] / UNIT))


def gga(r, ident, talker="$GPGGA"):
    t = stamp(r["t"])
    s = "%s,%s.%03d,%s,%s,%s,%s,2,8,1.0,%.2f,M,0.0,M,1.0,%04d" % (talker[1:], t.strftime("%H%M%S"), t.microsecond // 1000, dm(r["lat"], 2), "S" if r["lat"][2] else "N",
                                                         dm(r["lon"], 3), "W" if r["lon"][2] else "E", -r["d"] / 100, ident)
    x = 0
    for c in s:
        x ^= ord(c)
    return "$%s*%02X" % (s, x)


# every writer returns {file name: text}, extra mission fields, rule, uncertainty basis, honours clock settings
def usbl_dump(rng, files, cfg):
    rows = []
    for r in sum(files, []):
        t = stamp(r["t"])
        lat = "%d-%s %s" % (r["lat"][0], "%.4f" % (r["lat"][1] / 10000), "S" if r["lat"][2] else "N")
        lon = "%d-%s %s" % (r["lon"][0], "%.4f" % (r["lon"][1] / 10000), "W" if r["lon"][2] else "E")
        pos = [lat, lon, "D=%.2f" % (r["d"] / 100)] if r["ok"] else ["", "", ""]
        rows.append(",".join([t.strftime("%Y-%m-%d"), t.strftime("%H:%M:%S"), "T5" if r["own"] else rng.choice(["T1", "T50", "S5", "t5"]), "a", "b", "c"] + pos +
                             ["H=%.1f" % rng.uniform(0, 99), "B=%.1f" % rng.uniform(0, 359), "R=%.2f" % (r["r"] / 100)]))
    cfg.update(filename="dump.txt", label="T5")
    return {"dump.txt": "\n".join(rows) + "\n"}


def noc(rng, files, cfg):
    out = {}
    for i, f in enumerate(files):
        ls = []
        for r in f:
            t = stamp(r["t"])
            x = t.strftime("%d/%m/%Y %H:%M:%S") + "\t" + gga(r, cfg["label"] if r["own"] else cfg["label"] + rng.choice([1, 10]))
            ls.append(x if r["ok"] else rng.choice(["", "no tabs here", "# comment"]))
        out["log%d.txt" % i] = "\n".join(ls) + "\n"
    return out


def eiva(rng, files, cfg):
    out = {}
    for i, f in enumerate(files):
        ls = ["HEADER"]
        for r in f:
            t = stamp(r["t"])
            ident = cfg["label"] if r["own"] else cfg["label"] + rng.choice([1, 10])
            x = "P  D  %4d  %s.%03d 1.0 2.0 %.2f %s %s 0 0" % (ident, t.strftime("%Y:%m:%d:%H:%M:%S"), t.microsecond // 1000, -r["d"] / 100, deg(r["lat"]), deg(r["lon"]))
            ls.append(x if r["ok"] else rng.choice(["R132  4 something", "P  C   2 2020", "D     2  19  1"]))
        out["2020%d_G.NPD" % i] = "\n".join(ls) + "\n"
    out["other.txt"] = "P  D  %4d  2020:01:01:01:01:01.000 1 2 -3 4 5 0 0\n" % cfg["label"]
    return out


def sgga(kind):
    def write(rng, files, cfg):
        cfg["field_id"] = rng.choice([2, 7])
        out = {}
        for i, f in enumerate(files):
            ls = []
            for r in f:
                t = stamp(r["t"])
                ident = cfg["field_id"] if r["own"] else cfg["field_id"] + rng.choice([1, 20])
                ms = "%03d" % (t.microsecond // 1000)
                pos = "%s,%s,%s,%s" % (dm(r["lat"], 2), "S" if r["lat"][2] else "N", dm(r["lon"], 3), "W" if r["lon"][2] else "E")
                if kind == 1:
                    x = "A %s.%s B,$GPGGA,%s.%s,%s,%d,8,1.0*00" % (t.strftime("%H:%M:%S"), ms, t.strftime("%H%M%S"), ms, pos, ident)
                elif kind == 4:
                    x = "A %s.%s B,$GPGGA,%s.%s,%s,1,8,1.0,0.0,M,0.0,M,1.0,%d*00" % (t.strftime("%H:%M:%S"), ms, t.strftime("%H%M%S"), ms, pos, ident)
                else:
                    x = "%s %s:%s a b,c,d,$GPGGA,%s,%s,1,8,1.0,0.0,M,0.0,M,%s%d*00" % (t.strftime("%Y/%m/%d"), t.strftime("%H:%M:%S"), ms, t.strftime("%H%M%S"), pos, "" if kind == 2 else "1.0,", ident)
                ls.append(x if r["ok"] else rng.choice(["", "A 12:00 B,$GPGGA", x[:len(x) // 3], x.replace(pos, ",,,")]))
            d = stamp(f[0]["t"] if f else 0).strftime("%Y%m%d")
            name = {1: d + "_%d_GGAlsq.txt", 2: "CommsLog_GNSS_%d.txt", 3: "GGAPosition.txt%%", 4: d + "_%d_GGA.txt"}[kind].replace("%d", str(i)).strip("%")
            out[name] = "\n".join(ls) + "\n"
        return out
    return write


def mrt(rng, files, cfg):
    cfg["filename"] = "survey.csv"
    out = {"survey.csv": "x\n"}
    b = lambda name, t: ["u", "s", name, "p", "pn", "a", t, "f", "1"]
    st = lambda ms: stamp(ms).strftime("%Y-%m-%d %H:%M:%S.") + "%03d" % (ms % 1000)
    ship, part = cfg["_ship"], []
    for q in ship["pos"]:
        part.append(",".join(["LatLongObs"] + b("GNSS 1", st(q["t"])) + [deg(q["lat"]), deg(q["lon"]), "0.0", "True", "True", "True"]))
        if rng.random() < .2:
            part.append(",".join(["LatLongObs"] + b("GNSS 2", st(q["t"])) + ["1.0", "2.0", "0.0", "True", "True", "True"]))
    for q in ship["hdg"]:
        part.append(",".join(["PitchRollHeadingObs"] + b("MRT-USBL", st(q["t"])) + ["%.1f" % rng.uniform(-5, 5), "%.1f" % rng.uniform(-5, 5), "%.2f" % (q["h"] / 100), "True", "True", "True"]))
        if rng.random() < .2:
            part.append(",".join(["PitchRollHeadingObs"] + b("Gyro 2", st(q["t"])) + ["0", "0", "12.5", "True", "True", "True"]))
    rng.shuffle(part)
    for i, f in enumerate(files):
        ls = []
        for r in f:
            t = st(r["t"])
            if rng.random() < .3:
                ls.append(rng.choice(["JobData,a,b", "Time,a,b,c,d", "Nonsense,1,2", ",".join(["DepthObs"] + b("AUV 1", t) + ["1.0", "True"])]))
            x = ",".join(["LatLongObs"] + b("AUV 1" if r["own"] else rng.choice(["AUV 2", "AUV 10"]), t) + [deg(r["lat"]), deg(r["lon"]), "%.2f" % (-r["d"] / 100), "True", "True", "True"])
            ls.append(x if r["ok"] else rng.choice(["Nonsense,AUV 1,2", "JobData,AUV 1", ",".join(["HeadingObs"] + b("AUV 1", t) + ["1.0", "True"])]))
            if rng.random() < .2:
                ls.append("JobData,a,b")
        mine, part = (part, []) if i == len(files) - 1 else (part[:rng.randrange(len(part) + 1)], part)
        part = part[len(mine):]
        for x in mine:
            ls.insert(rng.randrange(len(ls) + 1), x)
        out["survey_%d.csv" % (i + 1)] = "\n".join(["Time,a,b,c,d"] + ["header"] * 35 + ls) + "\n"
    return out


def koyo(rng, files, cfg):
    cfg["filename"] = "pos.csv"
    ls = ["timestamp,Hedding,Lat,Lon,Depth(ROV),ALT,dist,Lat_flt,Lon_flt,calc_depth"]
    for r in sum(files, []):
        ls.append("%s,94.9,1.0,2.0,%s,10,0,%s,%s,0" % (stamp(r["t"]).strftime("%Y-%m-%d %H:%M:%S"), "%.2f" % (r["d"] / 100) if r["ok"] else "", deg(r["lat"]), deg(r["lon"])))
    return {"pos.csv": "\n".join(ls) + "\n"}


def alr(rng, files, cfg):
    cfg["filename"] = "alr.csv"
    key = rng.choice(["timestamp", "corrected_timestamp", "both"])
    ls = ["DVL_down_BT_valid,DVL_down_BT_x,DVL_down_BT_y,DVL_down_BT_z,AUV_depth,GPS_latitude,%s,GPS_longitude" % ("timestamp,corrected_timestamp" if key == "both" else key)]
    for r in sum(files, []):
        t = "%.3f" % (R.BASE + r["t"] / 1000)
        if key == "both":
            t = "%.3f," % (R.BASE + r["t"] / 1000 - 5) + t
        a, b = deg(r["lat"]), deg(r["lon"])
        if not r["ok"]:
            a, b = rng.choice([("", ""), (a, ""), ("", b)])
        ls.append("1,0.1,0.2,0.3,%.2f,%s,%s,%s" % (r["d"] / 100, a, t, b))
    return {"alr.csv": "\n".join(ls) + "\n"}


# writer, format, several files, foreign beacons, running clock, whole seconds, time zone honoured, offset honoured, basis of the uncertainty
FORMATS = dict(
    usbl_dump=(usbl_dump, False, True, "all", True, True, True, "range"),
    NOC_nmea=(noc, True, True, "all", False, True, True, "depth"),
    eiva_navipac=(eiva, True, True, "all", False, True, True, "depth"),
    sonardyne_gga=(sgga(1), True, True, "all", False, True, False, None),
    sonardyne_gga2=(sgga(2), True, True, "all", False, True, False, None),
    sonardyne_gga3=(sgga(3), False, True, "all", False, True, False, None),
    sonardyne_gga4=(sgga(4), True, True, "all", False, True, False, None),
    sonardyne_mrt=(mrt, True, True, "all", False, True, True, "slant"),
    koyo21rov=(koyo, False, False, "latest", True, True, True, "depth"),
    alr=(alr, False, False, "latest", False, False, False, "depth"))


def gen(rng, o, fmt):
    wr, many, foreign, rule, whole, tz, off, basis = FORMATS[fmt]
    s = W.rand_sensor(rng)
    if not tz:
        s.tz = "utc"
    if not off:
        s.off = 0
    k0 = [x * UNIT for x in o]
    files, t, seen = [], 0, set()
    for _ in range(rng.choice([1, 1, 2, 3]) if many else 1):
        f = []
        for _ in range(rng.randrange(1, 9)):
            t += rng.choice([1000, 2000, 5000, 60000]) if whole else rng.choice([1, 250, 999, 1000, 4321])
            if rule == "latest" and f and rng.random() < .15:
                t = f[-1]["u"]
            k = [x + rng.randrange(-4000, 4000) for x in k0]
            d = rng.randrange(1, 300000) if "gga" not in fmt else 0
            r = dict(u=t, t=s.local(W.NOON + t) // (1000 if whole else 1) * (1000 if whole else 1), own=not foreign or rng.random() < .75, ok=rng.random() < .85, lat=arc(k[0]), lon=arc(k[1]), d=d,
                     r=dict(range=rng.randrange(d, d + 10000), depth=d).get(basis, 0))
            if whole and s.off % 1000:
                s.off = s.off // 1000 * 1000
                r["t"] = s.local(W.NOON + t)
            f.append(r)
        files.append(f)
    ship = dict(pos=[], hdg=[])
    if basis == "slant":                       # the ship moves and turns; its observations have their own clock ticks
        end = max(r["t"] for f in files for r in f) if any(files) else 0
        beg = min(r["t"] for f in files for r in f) if any(files) else 0
        at = lambda: rng.choice([rng.randrange(beg - 2000, end + 2000), rng.choice(rng.choice(files))["t"] + rng.choice([-400, -100, 0, 100, 400])])
        ship["pos"] = [dict(t=at(), lat=arc(k0[0] + rng.randrange(-2000, 2000)), lon=arc(k0[1] + rng.randrange(-2000, 2000))) for _ in range(rng.randrange(1, 7))]
        ship["hdg"] = [dict(t=at(), h=rng.randrange(36000)) for _ in range(rng.randrange(1, 7))]
    return s, files, ship, rule, basis


def n20(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "FixLog", "SPECIFICATION Spec\nCONSTANTS N = %d\nMaxT = 2\nINVARIANTS Complete OnlyMine Running LastCounts Foreign\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4))
    evs = []
    for k in range(ctx.n(120, 1500)):
        fmt = list(FORMATS)[k % len(FORMATS)]
        o = rng.choice(ORIGINS)
        s, files, ship, rule, basis = gen(rng, o, fmt)
        fac, off = rng.choice([(0.01, 2.0), (0.006, 0.5), (0.02, 0.0)])
        cfg = dict(format=fmt, filepath="nav/fixes/", label=rng.choice([2, 3, 7]), std_factor=fac, std_offset=off, _ship=ship, **s.cfg())
        out = FORMATS[fmt][0](rng, files, cfg)
        cfg.pop("_ship")
        w = W.World(ctx.work / ("f%d" % k))
        w.mission["origin"].update(latitude=float(o[0]), longitude=float(o[1]))
        w.mission["usbl"] = cfg
        w.phins = [R.ph_time(W.NOON), R.ph_dep("1.0", W.NOON)]
        if fmt == "alr":                       # one log for all sensors, named by the velocity sensor
            w.mission["velocity"].update(format="alr", filepath="nav/fixes/", filename=cfg["filename"])
            for q in ("orientation", "altitude", "depth"):
                w.mission.pop(q)
        w.write()
        for name, text in out.items():
            p = w.raw / "nav/fixes" / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text)
        with Zone(rng.choice(ZONES)):
            st, val, con = run_code(parse, [str(w.raw)], False, False)
        if st == "ok" and not (w.proc / "nav/nav_standard.json").exists():
            st = "missing"
        recs = []
        mlat, mlon = metres(o[0])
        for r in (w.nav() if st == "ok" else []):
            if r["category"] != "usbl":
                continue
            g, h = r["data_target"], r.get("data_ship")
            recs.append(dict(t=round((r["epoch_timestamp"] - R.BASE) * 1000), lat=round(g[0]["latitude"] * UNIT), lon=round(g[1]["longitude"] * UNIT), d=round(g[4]["depth"] * 100),
                             n=round(g[2]["northings"] * 100), e=round(g[3]["eastings"] * 100), s=[round(g[i][q + "_std"] * 1000) for i, q in ((2, "northings"), (3, "eastings"), (4, "depth"))],
                             dist=round(g[5]["distance_to_ship"] * 100) if basis in ("range", "slant") else 0,
                             ship=[round(h[0]["latitude"] * UNIT), round(h[0]["longitude"] * UNIT), round(h[1]["northings"] * 100), round(h[1]["eastings"] * 100), round(h[2]["heading"] * 100)] if basis == "slant" else []))
        for f in files:
            for r in f:
                r.pop("u")
        evs.append(dict(status=st, fmt=fmt, files=files, rule=rule, tz=int(s.hours * 3600000), off=s.off, recs=recs, lat0=o[0] * UNIT, lon0=o[1] * UNIT, mlat=round(mlat * 100), mlon=round(mlon * 100),
                        fac=round(fac * 1000) if basis else -1, basis=basis or "", ship=ship, foff=round(off * 1000), note=str(val)[-500:] if st != "ok" else ""))
        shutil.rmtree(w.root, ignore_errors=True)
    for e in evs[:3]:
        ctx.sample(e)
    bad = tlc_validate(ctx, "TraceFixLog", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["fixes_recorded"] = sum(len(e["recs"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, dict(evs[i]))
    ctx.assumptions += ["the sign of a configured time offset is not judged for the Sonardyne GGA formats; ALR logs are stamped in UTC"]


CHECKS = {"N20": n20}
