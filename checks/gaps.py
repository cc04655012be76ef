"""N16: the GAPS packet stream."""
import math, shutil
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_validate

UNIT = 6000.0            # 0.01 minute of arc
ORIGINS = [(26, 127), (-26, -127), (50, -4), (-33, 151)]


def metres(lat):
    """metres per 0.01 minute of latitude / longitude on the WGS84 ellipsoid at latitude lat"""
    a, e2 = 6378137.0, 0.00669437999014
    s = math.sin(math.radians(lat))
    m = a * (1 - e2) / (1 - e2 * s * s) ** 1.5
    nn = a / math.sqrt(1 - e2 * s * s)
    return math.radians(1 / UNIT) * m, math.radians(1 / UNIT) * nn * math.cos(math.radians(lat))


def gen_file(rng, s, o, beacon, n, used):
    lines, ab = [], []
    L = s.local
    t = rng.randrange(0, 3000) * 10
    deg = lambda o, k: o + k / UNIT if o > 0 else o + k / UNIT
    shipk = [rng.randrange(-40, 40), rng.randrange(-40, 40)]
    h = rng.randrange(0, 3600)
    nxt = rng.choice(["ship", "hdt"])

    def ship():
        shipk[0] += rng.randrange(-3, 4)
        shipk[1] += rng.randrange(-3, 4)
        lines.append(R.gaps_pos(L(W.NOON + t), 0, deg(o[0], shipk[0]), deg(o[1], shipk[1]), "0.0"))
        ab.append(dict(op="pkt", kind="ship", t=t, lat=shipk[0], lon=shipk[1]))

    def hdt():
        nonlocal h
        h = (h + rng.choice([-15, 5, 20, 30, 300, 1500, -1700])) % 3600
        lines.append(R.gaps_hdt("%.1f" % (h / 10)))
        ab.append(dict(op="pkt", kind="hdt", h=h))

    def report():
        nonlocal nxt, t
        t += rng.randrange(5, 60) * 10
        ship() if nxt == "ship" else hdt()
        nxt = "hdt" if nxt == "ship" else "ship"

    def fixp(good=True, ident=None):
        nonlocal t
        t += rng.randrange(5, 60) * 10
        while t in used:
            t += 10
        used.add(t)
        ident = beacon if ident is None else ident
        k = [shipk[0] + rng.randrange(-45, 45), shipk[1] + rng.randrange(-45, 45)]
        d = rng.randrange(10, 8000)
        f, ok = ("F", "1") if good else rng.choice([("C", "1"), ("F", "0"), ("", "1"), ("D", "0")])
        lines.append(R.gaps_pos(L(W.NOON + t), ident, deg(o[0], k[0]), deg(o[1], k[1]), "%.1f" % (d / 10), f, ok))
        ab.append(dict(op="pkt", kind="fix", t=t, lat=k[0], lon=k[1], d=d, id=ident, good=good))

    def other():
        lines.append(rng.choice(["", "noise", "$GPGGA,1,2,3*00", "$PTSAX,#1,2,3*11", "$HEHDX,12.0,T*00"]))
        ab.append(dict(op="pkt", kind="other"))

    # ship position and heading strictly alternate; both are known before anything else
    report(); report()
    for _ in range(n):
        r = rng.random()
        for _ in range(rng.choice([0, 0, 1, 2, 2, 3])):
            report()
        if r < .65:
            fixp()
        elif r < .75:
            fixp(good=False)
        elif r < .88:
            fixp(ident=rng.choice([i for i in (1, 3, 12, 20) if i != beacon]))
        else:
            other()
        if rng.random() < .75:
            report(); report()
    return lines, ab


def n16(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "Gaps", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS OnlyValid FlagRange OwnBracket\nPROPERTY AppendOnly\nCHECK_DEADLOCK FALSE\n" % ctx.n(7, 8))
    evs, logs = [], []
    for k in range(ctx.n(60, 600)):
        o = rng.choice(ORIGINS)
        w = W.World(ctx.work / ("g%d" % k))
        w.mission["origin"].update(latitude=float(o[0]), longitude=float(o[1]))
        s = W.rand_sensor(rng)
        beacon = rng.choice([1, 2, 2, 3])
        fac, off = rng.choice([(0.01, 2.0), (0.006, 0.5), (0.02, 0.0)])
        w.mission["usbl"] = dict(W.USBL_CFG, label=beacon, std_factor=fac, std_offset=off, **s.cfg())
        w.phins = [R.ph_time(W.NOON), R.ph_dep("1.0", W.NOON)]
        used, w.gaps = set(), {}
        evs.append(dict(op="dive", beacon=beacon)); logs.append(None)
        for i in range(rng.choice([1, 1, 2, 3])):
            ln, ab = gen_file(rng, s, o, beacon, rng.randrange(1, 10), used)
            w.gaps["g%d.dat" % rng.randrange(10 ** 6)] = ln
            evs += ab + [dict(op="file")]
            logs += [None] * (len(ab) + 1)
        if rng.random() < .3:
            w.gaps["notes.txt"] = ["not a log"]
        w.write()
        st, val, con = run_code(parse, [str(w.raw)], False, False)
        recs = []
        mlat, mlon = metres(o[0])
        for r in (w.nav() if st == "ok" else []):
            if r["category"] != "usbl":
                continue
            tg, sh = r["data_target"], r["data_ship"]
            mo = lambda v, ref, sc: round((v - ref) * UNIT * sc)
            recs.append(dict(
                t=round((r["epoch_timestamp"] - R.BASE) * 1000) - W.NOON,
                lat=mo(tg[0]["latitude"], o[0], 1), lon=mo(tg[1]["longitude"], o[1], 1),
                n=round(tg[2]["northings"] * 10), e=round(tg[3]["eastings"] * 10), d=round(tg[4]["depth"] * 10),
                ddm=round(tg[4]["depth"] * 10), dist=round(tg[5]["distance_to_ship"] * 10),
                std=round(tg[2]["northings_std"] * 10000), slat=mo(sh[0]["latitude"], o[0], 1000),
                slon=mo(sh[0]["longitude"], o[1], 1000), sn=round(sh[1]["northings"] * 10), se=round(sh[1]["eastings"] * 10),
                sh=round(sh[2]["heading"] * 10)))
        evs.append(dict(op="nav", status=st, recs=recs, mlat=round(mlat * 1000), mlon=round(mlon * 1000),
                        fac=round(fac * 1000), off=round(off * 10000)))
        logs.append(dict(gaps=w.gaps, beacon=beacon, recs=recs, note=str(val)[-600:]))
        shutil.rmtree(w.root, ignore_errors=True)
    ctx.sample(evs[:10])
    bad = tlc_validate(ctx, "TraceGaps", evs, chunk=10 ** 9)
    ctx.cov["traces_validated_against_impl"] += sum(1 for e in evs if e["op"] == "nav")
    ctx.notes["fixes_recorded"] = sum(len(e["recs"]) for e in evs if e["op"] == "nav")
    for i, why in bad:
        ctx.violation(why, logs[i])
    ctx.assumptions += ["ship position and heading reports alternate; packet times are well formed"]


CHECKS = {"N16": n16}
