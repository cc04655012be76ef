"""O03: mission and vehicle descriptions."""
import shutil
from pathlib import Path
import yaml
from lib import run_code, tlc_model, tlc_validate

FIELDS = ["format", "filepath", "filename", "timezone", "timeoffset", "label", "std_factor", "std_offset", "origin", "topic", "field_id", "apply_depth_filter", "apply_north_east_filter"]
ATTR = dict(timeoffset="timeoffset_s")
SIX = ["surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg"]


def text(v):
    return str(float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else str(v)


def sensor(rng, name, frames):
    e = dict(format=rng.choice(["phins", "gaps", "autosub"]))
    opt = dict(filepath="nav/%d/" % rng.randrange(9), filename="f%d.txt" % rng.randrange(9), timezone=rng.choice(["utc", "jst", "CET", 0, 5.5, -3, "JST", "UTC", "cet"]),
               timeoffset=rng.randrange(-5, 5) / 2, label=rng.randrange(20), std_factor=rng.randrange(9) / 100, std_offset=rng.randrange(9) / 10, topic="/t%d" % rng.randrange(9),
               field_id=rng.randrange(5), apply_depth_filter=rng.random() < .5, apply_north_east_filter=rng.random() < .5)
    for k, v in opt.items():
        if rng.random() < .6:
            e[k] = v
    if name in ("tide", "dead_reckoning"):
        e.pop("origin", None)
    elif rng.random() < .4:
        e["origin"] = rng.choice(frames)
    return e


def read(folder):
    from oplab import Mission, Vehicle
    return Mission(folder / "mission.yaml"), Vehicle(folder / "vehicle.yaml")


def state(m, v):
    loaded = {}
    for s in ("velocity", "orientation", "depth", "altitude", "usbl", "tide", "dead_reckoning"):
        x = getattr(m, s)
        if not x.empty():
            loaded[s] = {f: text(getattr(x, ATTR.get(f, f), "")) for f in FIELDS if f != "label"}
            loaded[s]["label"] = text(x.label)
            if s in ("tide", "dead_reckoning"):
                loaded[s].pop("origin")
    cams = [dict(name=c.name, path=c.path, origin=str(c.origin), laser=bool(c.records_laser), off=text(c.timeoffset_s), topic=str(getattr(c, "topic", None))) for c in m.image.cameras]
    pays = {k: dict(path=p.path, format=p.format, tz=text(p.timezone), off=text(p.timeoffset_s)) for k, p in m.payloads.items()}
    org = [text(m.origin.latitude), text(m.origin.longitude), m.origin.crs, str(m.origin.date)]
    img = [m.image.format, text(m.image.timezone), text(m.image.timeoffset_s)]
    off = lambda o: dict(zip(SIX, [text(getattr(o, a)) for a in ("surge", "sway", "heave", "roll", "pitch", "yaw")]))
    veh = {s: off(getattr(v, s)) for s in ("origin", "ins", "dvl", "depth", "usbl")}
    return dict(loaded=loaded, cams=cams, pays=pays, origin=org, image=img, veh=veh, camoff=[off(c) for c in (v.camera1, v.camera2, v.camera3)], pay=[(k, off(p)) for k, p in sorted(v.payloads.items())])


def event(ctx, rng):
    from oplab import Mission
    root = ctx.work / "raw" / "c" / "d"
    base = ["origin", "ins", "dvl", "depth", "usbl"]
    camframes = rng.sample(["cam1", "cam2", "LC", "RC", "fore"], 3)
    frames = base + camframes
    pays = rng.sample(["ctd", "eh", "o2"], rng.randrange(0, 3))
    m = dict(version=rng.choice([1, 2]), origin=dict(latitude=rng.randrange(-89, 89) + .5, longitude=rng.randrange(-179, 179) + .25, coordinate_reference_system="wgs84", date="2020/01/%02d" % rng.randrange(1, 28)))
    names = ["velocity", "orientation", "depth", "altitude", "usbl", "tide", "dead_reckoning"]
    absent = [s for s in names if rng.random() < .2]
    for s in names:
        if s not in absent:
            m[s] = sensor(rng, s, frames)
    cams = []
    named = rng.random() < .6
    for i in range(rng.randrange(1, 4)):
        c = dict(name="C%d" % i if named else camframes[i], path="image/%d" % i)
        if named:
            c["origin"] = rng.choice(camframes)
        if rng.random() < .3:
            c["records_laser"] = rng.random() < .5
        if rng.random() < .3:
            c["timeoffset"] = rng.randrange(4) / 4
        if rng.random() < .2:
            c["topic"] = "/c%d" % i
        cams.append(c)
    m["image"] = dict(format="acfr_standard", timezone=rng.choice(["utc", 9]), timeoffset=rng.randrange(3), cameras=cams)
    if pays:
        m["payloads"] = {p: dict(path="p/%s.csv" % p, format="csv", timezone=rng.choice([0, 9]), timeoffset=rng.randrange(3)) for p in pays}
    veh = {f: {q: rng.randrange(-40, 40) / 4 for q in SIX} for f in frames}
    vp = {p: {q: rng.randrange(-40, 40) / 4 for q in SIX} for p in pays + ["spare"]}
    v = dict(veh)
    if rng.random() < .3:                          # a frame is missing
        k = rng.choice(frames[1:] + pays)
        v.pop(k, None)
        vp.pop(k, None)
    if pays or rng.random() < .5:
        v["payloads"] = vp
    else:
        vp = {}
    for f in (root, ctx.work / "w1", ctx.work / "w2"):
        f.mkdir(parents=True)
    (root / "mission.yaml").write_text(yaml.safe_dump(m, sort_keys=rng.random() < .5))
    (root / "vehicle.yaml").write_text(yaml.safe_dump(v, sort_keys=rng.random() < .5))
    ev = dict(given={s: {k: text(x) for k, x in m[s].items()} for s in names if s in m}, absent=absent, cameras=[{k: str(x) for k, x in c.items() if k in ("name", "path", "origin")} for c in cams],
              frames=[f for f in frames if f in v], vehicle={k: {q: text(z) for q, z in x.items()} for k, x in {**veh, **vp}.items()}, payloads=pays, vpayloads=sorted(vp))

    def run():
        a, va = read(root)
        s0 = state(a, va)
        # copied with the results, twice over
        a.write(ctx.work / "w1" / "mission.yaml")
        va.write(ctx.work / "w1" / "vehicle.yaml")
        b, vb = read(ctx.work / "w1")
        b.write(ctx.work / "w1" / "sub" / "mission.yaml")
        vb.write(ctx.work / "w1" / "sub" / "vehicle.yaml")
        c, vc = read(ctx.work / "w1" / "sub")
        # written from memory
        n = Mission()
        for k in names + ["origin", "image", "payloads"]:
            setattr(n, k, getattr(a, k))
        n.write(ctx.work / "w2" / "mission.yaml")
        va.write(ctx.work / "w2" / "vehicle.yaml")
        d, vd = read(ctx.work / "w2")
        return s0, state(b, vb), state(c, vc), state(d, vd)
    st, val, con = run_code(run)
    ev.update(status=st, loaded={}, camloaded=[], offsets={}, camoffsets=[], payoffsets={}, copied=False, written=False, note=str(val)[-600:] if st != "ok" else "")
    if st == "ok":
        s0, s1, s2, s3 = val
        ev.update(loaded=s0["loaded"], camloaded=s0["cams"], offsets={k: x for k, x in s0["veh"].items() if k in v}, camoffsets=s0["camoff"], payoffsets=dict(s0["pay"]),
                  copied=s0 == s1 == s2, written=s0 == s3)
        if s0 != s3:
            ev["note"] = str([(k, s0[k], s3[k]) for k in s0 if s0[k] != s3[k]])[:800]
    for f in (root, ctx.work / "w1", ctx.work / "w2"):
        shutil.rmtree(f, ignore_errors=True)
    return ev


def o03(ctx):
    rng = ctx.rng
    tlc_model(ctx, "MissionModel", 'SPECIFICATION Spec\nCONSTANTS Frames = {"dvl", "usbl", "a"} Vals = {"a", "dvl"}\nINVARIANTS Survives Mounted\nCHECK_DEADLOCK FALSE\n')
    evs = [event(ctx, rng) for _ in range(ctx.n(150, 3000))]
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TraceMission", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.notes["accepted"] = sum(e["status"] == "ok" for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])


CHECKS = {"O03": o03}
