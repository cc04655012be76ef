"""N15: the PHINS message stream."""
import shutil
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_validate


def corrupt(line, rng):
    """damage a sentence so that its checksum no longer matches"""
    how = rng.randrange(5)
    if how == 0:
        return line[:-2] + "%02X" % ((int(line[-2:], 16) + rng.randrange(1, 255)) % 256)
    if how == 1:
        return line.split("*")[0]
    if how == 2:
        i = rng.randrange(8, line.index("*"))
        c = chr((ord(line[i]) - 33 + rng.randrange(1, 90)) % 90 + 33)
        c = c if c not in "*" and c != line[i] else "~"
        return line[:i] + c + line[i + 1:]
    if how == 3:
        return line[rng.randrange(1, len(line) - 5):]          # truncated at the front
    return line[:rng.randrange(10, line.index("*"))] + "*" + line[-2:][::-1] + "Z"


def gen_log(rng, sensor, q, n, order=None):
    """returns (text lines, abstract lines)"""
    lines, ab = [], []
    u = [rng.randrange(100, 1000)]

    def uniq():
        u[0] += rng.randrange(1, 7)
        return u[0]

    def put(text, kind, t=-1, v=(), bad_ok=True, pbad=0.06):
        if bad_ok and rng.random() < pbad:
            ab.append(dict(op="line", ok=False, kind=kind, t=t, v=list(v)))
            lines.append(corrupt(text, rng))
            return
        if rng.random() < .1:
            text = text[:-2] + text[-2:].lower()
        if rng.random() < .05:
            text = "  " + text + "  "
        ab.append(dict(op="line", ok=True, kind=kind, t=t, v=list(v)))
        lines.append(text)

    t = 0
    L = sensor.local

    def rel(ms):
        return W.NOON + ms

    def time_msg():
        r = rng.random()
        if r < .08:     # unreadable seconds
            s = R.hms(L(rel(t)))
            s = rng.choice([s[:4] + "60" + s[6:], s[:4] + "6" + s[6:], s[:9], s + "1", s[:4] + "6x" + s[6:]])
            put(R.nmea("PIXSE,TIME__," + s), "TIME", -1)
        elif r < .2:    # microsecond variant
            put(R.nmea("PIXSE,TIME__," + R.hms(L(rel(t))) + "123"), "TIME", t)
        else:
            put(R.ph_time(L(rel(t))), "TIME", t)

    def head():
        h = uniq() * 10 + rng.randrange(10)
        h = h % 36000
        put(R.ph_head("%.2f" % (h / 100)), "HEAD", -1, [h])

    def att():
        a, b = rng.randrange(-3000, 3000), rng.randrange(-3000, 3000)
        put(R.ph_att("%.2f" % (a / 100), "%.2f" % (b / 100)), "ATT", -1, [a, b])

    def std():
        put(R.ph_attstd(0.1, 0.2, 0.3), "STD", -1, [1])

    def dvl():
        v = [rng.randrange(-300, 300) for _ in range(3)]
        dt = t + rng.randrange(-300, 300)
        if rng.random() < .07:
            s = R.hms(L(rel(dt)))
            s = s[:4] + "60" + s[6:]
            put(R.nmea("PIXSE,LOGIN_,%.2f,%.2f,%.2f,0.0,%s" % (v[0] / 100, v[1] / 100, v[2] / 100, s)), "DVL", -1, v)
        else:
            put(R.ph_dvl("%.2f" % (v[0] / 100), "%.2f" % (v[1] / 100), "%.2f" % (v[2] / 100), L(rel(dt))), "DVL", dt, v)

    def dep():
        d = uniq()
        dt = t + rng.randrange(-300, 300)
        if rng.random() < .07:
            s = R.hms(L(rel(dt)))
            put(R.nmea("PIXSE,DEPIN_,%.2f,%s" % (d / 100, s[:4] + "60" + s[6:])), "DEP", -1, [d])
        else:
            put(R.ph_dep("%.2f" % (d / 100), L(rel(dt))), "DEP", dt, [d])

    def alt():
        a = uniq()
        put(R.ph_alt("1500.0", "0.0", "%.2f" % (a / 100)), "ALT", -1, [a])

    def junk():
        lines.append(rng.choice(["", "garbage", "$GPZDA,120000.00,01,01,2020,00,00*60", "$PIXSE", "****", "$PIXSE,TIME__",
                                 R.nmea("PIXSE,UTMWGS,Q,30,1,2,3"), "$PIXSE,HEAVE_,1,2,3*00"]))
        ab.append(dict(op="line", ok=False, kind="JUNK", t=-1, v=[]))

    if rng.random() < .8:
        std()
    for _ in range(n):
        t += rng.choice([100, 200, 1000, 1000, 61000, -500])
        t = max(t, 1000)
        cyc = [time_msg, dvl, dep, alt]
        mode = rng.random()
        if mode < .35:
            cyc = [time_msg, head, att, dvl, alt, dep] + ([std] if rng.random() < .4 else [])
        elif mode < .6:
            cyc = [head, att, dep, dvl, alt, std, time_msg]
        else:
            cyc += [std]
            # with a turned sensor the heading must precede the attitude of the same cycle
            cyc += [lambda: (head(), att())] if q else [head, att]
            rng.shuffle(cyc)
            if q == 0 and rng.random() < .3:
                cyc.insert(rng.randrange(len(cyc)), rng.choice([head, att, dvl, alt, dep, time_msg]))
        for m in list(cyc):
            if rng.random() < .06:
                continue
            if rng.random() < .06:
                junk()
            m()
    # at least one complete cycle, so that the dive is never empty
    t += 1000
    put(R.ph_time(L(rel(t))), "TIME", t, bad_ok=False)
    put(R.ph_dep("%.2f" % (uniq() / 100), L(rel(t))), "DEP", t, [u[0]], bad_ok=False)
    return lines, ab


def observe(w, st, sensor):
    out = dict(ori=[], vel=[], dep=[], alt=[])
    if st != "ok":
        return out
    r2 = lambda x: round(x * 100)
    ms = lambda ts: -1 if ts is None else round((ts - R.BASE) * 1000) - W.NOON
    for r in w.nav():
        c, t = r["category"], r["epoch_timestamp"]
        if c == "orientation":
            out["ori"].append([ms(t), r2(r["data"][0]["heading"]), r2(r["data"][1]["roll"]), r2(r["data"][2]["pitch"])])
        elif c == "velocity" and r["frame"] == "body":
            out["vel"].append([ms(t), ms(r["epoch_timestamp_dvl"]), r2(r["data"][0]["x_velocity"]),
                               r2(r["data"][1]["y_velocity"]), r2(r["data"][2]["z_velocity"])])
        elif c == "depth":
            out["dep"].append([ms(t), ms(r["epoch_timestamp_depth"]), r2(r["data"][0]["depth"])])
        elif c == "altitude":
            out["alt"].append([ms(t), ms(r["epoch_timestamp_dvl"]), r2(r["data"][0]["altitude"])])
    return out


def n15(ctx):
    from auv_nav.parse import parse
    rng = ctx.rng
    tlc_model(ctx, "Phins", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Quarter = 1\nINVARIANTS StampsAreReal CorruptIgnored\n"
              "PROPERTIES NoTimeNoOutput AppendOnly\nCHECK_DEADLOCK FALSE\n" % ctx.n(5, 6))
    evs, logs = [], []
    for k in range(ctx.n(60, 600)):
        w = W.World(ctx.work / ("p%d" % k))
        q = rng.choice([0, 0, 0, 1, 2, 3])
        w.vehicle = D.vehicle_dict(dvl=D.frame(yaw=90.0 * q))
        s = W.rand_sensor(rng)
        w.set_ins(s)
        lines, ab = gen_log(rng, s, q, rng.randrange(2, 12) if k % 5 else 30)
        w.phins = lines
        w.write()
        st, val, con = run_code(parse, [str(w.raw)], False, False)
        o = observe(w, st, s)
        evs += [dict(op="log", q=q)] + ab + [dict(op="nav", status=st, **o)]
        logs += [None] * (len(ab) + 1) + [dict(lines=lines, q=q, tz=s.tz, off=s.off, out=o, note=str(val)[-600:])]
        shutil.rmtree(w.root, ignore_errors=True)
    ctx.sample(evs[:12])
    bad = tlc_validate(ctx, "TracePhins", evs, chunk=10 ** 9)
    ctx.cov["traces_validated_against_impl"] += sum(1 for e in evs if e["op"] == "nav")
    for i, why in bad:
        ctx.violation(why, logs[i])


CHECKS = {"N15": n15}
