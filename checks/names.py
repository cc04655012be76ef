"""O01: instants encoded in file names."""
import calendar, datetime, math, os, shutil, time
import yaml
from lib import run_code, tlc_model, tlc_validate

ZONES = ["UTC", "Asia/Tokyo", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "EST5EDT", "XYZ-13:45"]
CHARS = "abcXYR_-T"
FMT = ["xxxYYYYMMDDxhhmmssxfffxxxxx.xxx", "YYYYMMDDxhhmmssxfffuuuxxxxxxxxx.xxx", "xxxxxYYYYxMMxDDxhhmmssxfffuuuxx.xxx", "xxYYYYMMDDhhmmss.xxx",
       "YYYYMMDD_hhmmss_fff.xxx", "xDDMMYYYYxsshhmm.xxx", "hhmmssxDDxMMxYYYY.xxx", "uuufffssmmhhDDMMYYYYxx.xxx"]


def parts(ts):
    us = round((ts - math.floor(ts)) * 1e6)
    s = math.floor(ts)
    if us == 1000000:
        s, us = s + 1, 0
    return dict(day=s // 86400, sec=s % 86400, us=us)


def moment(rng):
    y = rng.choice([1970, 1999, 2000, 2016, 2019, 2020, 2024, 2037, rng.randrange(1971, 2037)])
    m = rng.choice([1, 2, 2, 3, 10, 11, 12, rng.randrange(1, 13)])
    d = rng.choice([1, calendar.monthrange(y, m)[1], rng.randrange(1, calendar.monthrange(y, m)[1] + 1)])
    return dict(Y="%04d" % y, M="%02d" % m, D="%02d" % d, h="%02d" % rng.choice([0, 1, 2, 23, rng.randrange(24)]), m="%02d" % rng.choice([0, 59, rng.randrange(60)]),
                s="%02d" % rng.choice([0, 59, rng.randrange(60)]), f="%03d" % rng.choice([0, 1, 999, rng.randrange(1000)]), u="%03d" % rng.choice([0, 7, 999, rng.randrange(1000)]))


def fill(rng, pat, mo):
    it = {k: iter(v) for k, v in mo.items()}
    return "".join(next(it[c]) if c in it else rng.choice(CHARS) if c == "x" else c for c in pat)


def event(ctx, rng):
    from oplab import CameraSystem, FilenameToDate
    root = ctx.work / "raw" / "cruise" / "20200101_dive"
    ext = rng.choice(["tif", "png", "raw"])
    indexed = rng.random() < .35
    n = rng.randrange(1, 7)
    ev = dict(rows=[], idxpat=[], stamppat=[], images=[], tz=rng.choice(ZONES))
    node = dict(name="C1", type="grayscale", bit_depth=8, extension=ext)
    layout = rng.randrange(3)
    folder, node["path"] = [("image/c1", "image/c1"), ("image/i20200101/c1", "image/i*/c1"), ("image/i20200101", "image/i*/*C1*")][layout]
    (root / folder).mkdir(parents=True)
    names = []
    if indexed:
        k = rng.choice([3, 5, 7])
        pre = rng.choice(["", "x"])
        pat = pre + "i" * k + ".xxx"
        idxs = rng.sample(range(10 ** k), n + rng.randrange(0, 4))
        if rng.random() < .5:
            idxs.sort()
        cols = [("index", "i" * k), ("date", "YYYYMMDD"), ("time", "hhmmss"), ("ms", "fff")]
        order = list(cols)
        if rng.random() < .3:
            rng.shuffle(order)
        extra = rng.choice([0, 0, 1, 2])           # columns without a name
        named = rng.choice([0, 1])                 # columns with a name that are not used
        nl = rng.choice(["\n", "\r\n"])
        lines = [",".join([c for c, _ in order] + ["gpio (0xXX)"] * named)]
        for i in idxs:
            mo = moment(rng)
            mo["u"] = "000"
            cell = dict(index=("%0" + str(k) + "d") % i, date=mo["Y"] + mo["M"] + mo["D"], time=mo["h"] + mo["m"] + mo["s"], ms=mo["f"])
            lines.append(",".join([cell[c] for c, _ in order] + ["12"] * (named + extra)))
            ev["rows"].append(dict(idx=list(cell["index"]), stamp=list(cell["date"] + cell["time"] + cell["ms"])))
        ev["idxpat"], ev["stamppat"] = ["i"] * k, list("YYYYMMDDhhmmssfff")
        (root / folder / "FileTime.csv").write_text(nl.join(lines) + nl)
        node.update(filename_to_date=pat, timestamp_file=folder.replace("i20200101", "i*") + "/FileTime.csv", columns=[dict(name=c, content=q) for c, q in cols])
        for i in rng.sample(idxs, n):
            names.append((rng.choice("LR") if pre else "") + ("%0" + str(k) + "d") % i + ("C1" if layout == 2 else ""))
    else:
        pat = rng.choice(FMT)
        dec = rng.choice([0, 2, 3, 6])
        if rng.random() < .25:
            pat = "xxx" + "e" * (10 + dec + (dec > 0)) + ".xxx"
        node["filename_to_date"] = pat
        seen = set()
        while len(names) < n:
            t = "%d" % rng.randrange(10 ** 9, 2 * 10 ** 9) + ("." + "%0*d" % (dec, rng.randrange(10 ** dec)) if dec else "")
            x = fill(rng, pat.split(".")[0], dict(moment(rng), e=t)) + ("C1" if layout == 2 else rng.choice(["", "", "_0.5"]))
            if x not in seen:
                seen.add(x)
                names.append(x)
    for x in names:
        (root / folder / (x + "." + ext)).write_bytes(b"")
    if rng.random() < .5:                          # files of other kinds are not images
        (root / folder / "notes.txt").write_text("")
        (root / folder / ("zC1." + ("jpg"))).write_text("")
    (root / "camera.yaml").write_text(yaml.safe_dump(dict(camera_system="x", cameras=[node])))
    old = os.environ.get("TZ")
    os.environ["TZ"] = ev["tz"]
    time.tzset()
    try:
        def get():
            c = CameraSystem(root / "camera.yaml", root).cameras[0]
            again = FilenameToDate(node["filename_to_date"], node.get("timestamp_file"), node.get("columns"), root)
            return c.image_list, c.stamp_list, [again(p) for p in c.image_list]
        st, val, con = run_code(get)
    finally:
        os.environ.pop("TZ")
        if old is not None:
            os.environ["TZ"] = old
        time.tzset()
    ev.update(status=st, exist=sorted(x + "." + ext for x in names), listed=[], note=str(val)[-400:] if st != "ok" else "")
    if st == "ok":
        ev["listed"] = sorted(os.path.basename(p) for p in val[0])
        for p, a, b in zip(*val):
            for t in (a, b):
                ok = isinstance(t, (int, float)) and math.isfinite(t)
                ev["images"].append(dict(name=list(os.path.basename(p).rsplit(".", 1)[0]), pat=list(pat), got=parts(t) if ok else dict(day=-1, sec=0, us=0)))
    shutil.rmtree(ctx.work / "raw")
    return ev


def o01(ctx):
    rng = ctx.rng
    tlc_model(ctx, "CalendarModel", "SPECIFICATION Spec\nCONSTANT Last = %d\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n" % ctx.n(2110, 2420))
    evs = [event(ctx, rng) for _ in range(ctx.n(300, 6000))]
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceFilename", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["names_decoded"] = sum(len(e["images"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])


CHECKS = {"O01": o01}
