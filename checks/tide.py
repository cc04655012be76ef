"""N05: tidal correction."""
import itertools
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_dump, tlc_validate

U = 100            # ms per model time unit in traces (0.1 s)


def pair_walk(n, rng):
    """a sequence over 0..n in which every ordered pair of times occurs consecutively"""
    seq = []
    for a in range(n + 1):
        seq.append(a)
        for b in range(a + 1, n + 1):
            seq += [a, b] if False else [b, a]
    rot = rng.randrange(len(seq))
    return seq[rot:] + seq[:rot]


def one(ctx, table, times, rng, fmt, nfiles, shuffle, tzr=True):
    """table: [(t_units, mm*10)], times: reading times in units. Returns events."""
    from auv_nav.parse import parse
    root = ctx.work / ("w%d" % rng.randrange(1 << 40))
    w = W.World(root)
    tide_s = W.rand_sensor(rng, names=("utc", "UTC", "jst", "JST", "cet")) if tzr else W.Sensor()
    tide_s.off = rng.choice([0, 60000, -120000]) if tzr else 0
    ins = W.rand_sensor(rng, names=("utc", "jst", "cet")) if tzr else W.Sensor()
    gs = W.rand_sensor(rng, names=("utc", "jst", "cet")) if tzr else W.Sensor()
    w.set_ins(ins)
    w.mission["usbl"] = dict(W.USBL_CFG, **gs.cfg())
    w.mission["tide"] = dict(format=fmt, filepath="nav/tide", std_offset=0.0, **tide_s.cfg())
    w.mission["image"] = None
    del w.mission["image"]
    rows = list(table)
    files = [rows[i::nfiles] for i in range(nfiles)] if shuffle else [
        rows[i * len(rows) // nfiles:(i + 1) * len(rows) // nfiles] for i in range(nfiles)]
    rng.shuffle(files)
    w.tide = {}
    for i, f in enumerate(files):
        if shuffle:
            rng.shuffle(f)
        loc = [(tide_s.local(W.NOON + t * U), h / 10000.0) for t, h in f]
        if fmt == "NOC_polpred":
            txt = R.tide_polpred([(ms // 60000, h) for ms, h in loc])
        else:
            txt = R.tide_cti([(ms // 1000, h) for ms, h in loc])
        w.tide["part%d/t%d.txt" % (i % 2, rng.randrange(1000) * 10 + i)] = txt
    # PHINS log: depth d_i unique per reading; others alongside
    lines, gaps = [R.ph_attstd(.1, .2, .3)], {"a.dat": [], "b.dat": []}
    depth = {}
    for i, t in enumerate(times):
        ms = W.NOON + t * U
        raw = 30000 + 100 * i          # mm
        L = ins.local(ms)
        lines += [R.ph_time(L), R.ph_head(10.0), R.ph_att(1.0, 2.0), R.ph_dvl(1, .2, .3, L),
                  R.ph_alt(1500, 0, 5.0 + i), R.ph_dep("%.1f" % (raw / 1000), L)]
        gaps["a.dat" if i % 3 else "b.dat"] += W.fix(ms, gs, "%.1f" % (raw / 1000))
    w.phins, w.gaps = lines, gaps
    w.write()
    st, val, con = run_code(parse, [str(w.raw)], False, False)
    evs = []
    nav = []
    if st == "ok":
        nav = w.nav()
    dep = [r for r in nav if r["category"] == "depth"]
    usb = [r for r in nav if r["category"] == "usbl"]
    alt = [r for r in nav if r["category"] == "altitude"]

    def unit(ts):
        return round((ts - R.BASE - W.NOON / 1000.0) * 1000 / U)

    def match(recs, val_of, std_of):
        """readings are identified by their uncertainty, which depends on the logged depth only"""
        out, missing = [], 0
        pool = {}
        for r in recs:
            pool.setdefault(unit(r["epoch_timestamp"]), []).append(r)
        for i, t in enumerate(times):
            raw = 30000 + 100 * i
            cands = pool.get(t, [])
            hit = [r for r in cands if abs(std_of(r) - std_expect(raw)) < 1e-6]
            if not hit:
                missing += 1
                continue
            out.append([t, raw * 10, round(val_of(hit[0]) * 10000)])
        return out, missing

    def std_expect(raw):
        return raw / 1000.0 * 0.001
    rd, miss = match(dep, lambda r: r["data"][0]["depth"], lambda r: r["data"][0]["depth_std"])
    miss += abs(len(dep) - len(times))
    others = [[round(a["data"][0]["altitude"] * 1000), 0] for a in alt]
    oa = sorted(o[0] for o in others)
    others = [[a, 5000 + 1000 * i] for i, a in enumerate(oa)]
    tab = [[t, h] for t, h in table]
    evs.append(dict(status=st, sensor="depth", tides=tab, readings=rd, missing=miss, others=others, note=(str(val) + con[-300:]) if st != "ok" else ""))
    # USBL: identified through distance_to_ship^2 - lateral^2 = depth^2 of the logged fix
    ru, missu = [], abs(len(usb) - len(times))
    import math
    pool = {}
    for r in usb:
        n = r["data_target"][2]["northings_std"]
        pool.setdefault(unit(r["epoch_timestamp"]), []).append(r)
    from geographiclib.geodesic import Geodesic
    lat = Geodesic.WGS84.Inverse(26.0, 127.0, 26.001, 127.001)["s12"]
    for i, t in enumerate(times):
        raw = 30000 + 100 * i
        dist = math.sqrt(lat ** 2 + (raw / 1000.0) ** 2)
        hit = [r for r in pool.get(t, []) if abs(r["data_target"][5]["distance_to_ship"] - dist) < 2e-3]
        if not hit:
            missu += 1
            continue
        ru.append([t, raw * 10, round(hit[0]["data_target"][4]["depth"] * 10000)])
    evs.append(dict(status=st, sensor="usbl", tides=tab, readings=ru, missing=missu, others=[], note=""))
    import shutil
    shutil.rmtree(root, ignore_errors=True)
    return evs


def n05(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Tide", "SPECIFICATION Spec\nCONSTANTS MaxT = %d MaxH = 2 NTides = 3 NReadings = %d\n"
              "INVARIANT CursorRefinesMeaning\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % ctx.n((4, 2), (5, 3)))
    tables = tlc_dump(ctx, "GenTide", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                      "CONSTANTS MaxT = 4 MaxH = %d MaxTides = %d\n" % ctx.n((2, 3), (2, 4)))
    rng.shuffle(tables)
    evs = []
    for tab in tables[:ctx.n(40, 400)]:
        # one model time unit = 60 s so that both tide formats can express it
        fmt = rng.choice(["NOC_CTI", "NOC_polpred"])
        table = [(t * 600, h * 2500) for t, h in tab]
        times = [t * 600 for t in pair_walk(4, rng)]
        times += [t + rng.choice([-1, 1, 7, -150, 299]) for t in times[:5]]
        evs += one(ctx, table, times, rng, fmt, rng.choice([1, 1, 2]), rng.random() < .5)
    for _ in range(ctx.n(40, 400)):
        fmt = rng.choice(["NOC_CTI", "NOC_polpred"])
        n = rng.randrange(2, 9)
        step = 600 if fmt == "NOC_polpred" else 10
        span = 15 if fmt == "NOC_polpred" else 900
        ts = sorted(rng.sample(range(span), n))
        # keep gaps below 10000 units (32-bit products in the specification)
        table = [(t * step, rng.randrange(-250, 250) * 100) for t in ts]
        lo, hi = table[0][0], table[-1][0]
        times = [rng.randrange(lo - 600, hi + 600) for _ in range(rng.randrange(3, 25))]
        times += rng.sample([t for t, _ in table], min(3, n))
        if rng.random() < .6:
            times.sort()
        times = list(dict.fromkeys(times))
        evs += one(ctx, table, times, rng, fmt, rng.randrange(1, 4), rng.random() < .5)
    for e in evs[:2]:
        ctx.sample(e)
    bad = tlc_validate(ctx, "TraceTide", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["tide tables with distinct sample times; logs whose local times stay within the log's day"]


CHECKS = {"N05": n05}
