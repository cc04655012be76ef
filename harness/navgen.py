"""Random parsed dives for `auv_nav process', and its result tables as scaled integers."""
import copy, csv, json, random, shutil
from pathlib import Path
import dive as D
import lib

B = 1577880000.0          # 2020-01-01 12:00:00 UTC


def T(ms):
    """epoch seconds of a time in ms after B (exactly representable times are not assumed)"""
    return B + ms / 1000.0


def ms(ts):
    return round((float(ts) - B) * 1000)


class Dive:
    """Inputs in integers: ms, 0.1 mm, 0.1 mm/s, 0.01 degree."""

    def __init__(self):
        self.vel, self.ori, self.dep, self.alt, self.usbl, self.img, self.las, self.ivel = [], [], [], [], [], [], [], []
        self.geo = {k: [0, 0, 0] for k in ("origin", "ins", "dvl", "depth", "usbl", "cam1", "cam2", "cam3")}
        self.extra = []
        self.ref = (26.0, 127.0)
        self.mission = None
        self.payload = None

    def records(self):
        r = []
        for v in self.vel:
            r.append(D.vel_rec(T(v["t"]), *[x / 10000 for x in v["v"]], *v.get("s", (.01, .02, .03)), tdvl=T(v.get("td", v["t"]))))
        for v in self.ivel:
            r.append(D.ivel_rec(T(v["t"]), *[x / 10000 for x in v["v"]]))
        for o in self.ori:
            r.append(D.ori_rec(T(o["t"]), *[x / 100 for x in o["a"]], s=o.get("s", .01)))
        for d in self.dep:
            r.append(D.dep_rec(T(d["t"]), d["y"] / 10000, s=d.get("s", .01)))
        for a in self.alt:
            r.append(D.alt_rec(T(a["t"]), a["y"] / 10000))
        for u in self.usbl:
            r.append(D.usbl_rec(T(u["t"]), u["n"] / 10000, u["e"] / 10000, u["d"] / 10000, dist=u.get("dist", 10.0), s=u.get("s", 1.0), sne=u.get("sne"), sd=u.get("sd")))
        for i in self.img:
            r.append(D.img_rec(T(i["t"]), i["f"], i.get("f2"), T(i.get("t2", i["t"]))))
        for i in self.las:
            r.append(D.laser_rec(T(i["t"]), i["f"]))
        return r + list(self.extra)

    def nav(self):
        return [D.origin_rec(*self.ref)] + sorted(self.records(), key=lambda r: r["epoch_timestamp"])

    def frames(self):
        return {k: D.frame(*[x / 10000 for x in v]) for k, v in self.geo.items()}

    def build(self, root, cfg, nav=None, order=None):
        m = self.mission or D.mission_dict()
        m["origin"].update(latitude=self.ref[0], longitude=self.ref[1])
        v = D.vehicle_dict(**self.frames())
        if self.payload:
            m["payloads"] = {k: dict(path=p["path"], format="generic_csv", columns=[], timezone=0, timeoffset=p.get("off", 0.0)) for k, p in self.payload.items()}
            v["payloads"] = {k: D.frame(*[x / 10000 for x in p["pos"]]) for k, p in self.payload.items()}
        raw, proc, conf = D.build(root, nav=self.nav() if nav is None else nav, auv_nav=cfg, mission=m, vehicle=v)
        for k, p in (self.payload or {}).items():
            f = raw / p["path"]
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text("corrected_timestamp,value\n" + "".join("%r,%s\n" % (T(s["t"]) - p.get("off", 0.0), s["f"]) for s in p["rows"]))
        return raw, proc, conf


def rows(path):
    with open(path, newline="") as f:
        return [dict(zip(h, r)) for h in [None] for rd in [list(csv.reader(f))] for h in [[x.strip() for x in rd[0]]] for r in rd[1:]]


def num(x, k):
    try:
        return round(float(x) * k)
    except (TypeError, ValueError):
        return -2 ** 30


def pose(r, k=10000):
    """a pose row as integers; k = units per metre"""
    t = r.get("timestamp", r.get("timestamp [s]"))
    return dict(t=ms(t), n=num(r["northing [m]"], k), e=num(r["easting [m]"], k), d=num(r["depth [m]"], k), h=num(r["altitude [m]"], k),
                a=[num(r["roll [deg]"], 100), num(r["pitch [deg]"], 100), num(r["heading [deg]"], 100)])


def table(proc, name):
    p = sorted(Path(proc).glob("json_renav_*/csv/**/" + name + ".csv"))
    return rows(p[0]) if p else None


def run(raw, force=False, start="", end=""):
    return lib.nav_process(str(raw), force, start, end)


# ----------------------------------------------------------------- generators
def times(rng, t0, t1, lo, hi, grid=1, gap=0):
    t, res = t0, []
    while t <= t1:
        res.append(t)
        t += max(grid, rng.randrange(lo, hi) // grid * grid)
        if gap and rng.random() < .15:
            t += rng.randrange(0, gap) // grid * grid
    return res


def gen(rng, span=12000, lever=True, usbl=0, imgs=0, wild=True, gap=3000, kinds=("even", "even", "even", "gaps", "fast")):
    """a dive in which depth and altitude cover the whole track; some sensors are fast or fall silent for a while"""
    d = Dive()
    kind = rng.choice(kinds)
    p = lambda m: [rng.randrange(-m, m + 1) * 1000 for _ in range(3)]
    if lever:
        for k in ("dvl", "depth", "usbl", "cam1", "cam2", "cam3"):
            d.geo[k] = p(15) if rng.random() < .8 else [0, 0, 0]
    v0, v1 = sorted(rng.sample(range(0, 4000), 1)) + [span - rng.randrange(0, 3000)]
    grid = rng.choice([1, 1, 100, 500]) if kind != "fast" else 1
    fast = kind == "fast"
    r = lambda lo, hi: times(rng, lo // grid * grid, hi, *((25, 220) if fast and rng.random() < .6 else (300, 1600)), grid, gap if kind == "gaps" else 0)
    speed = rng.choice([500, 5000, 12000])
    d.vel = [dict(t=t, td=t, v=[rng.randrange(-speed, speed + 1) // 10 * 10, rng.randrange(-speed, speed + 1) // 20 * 10, rng.randrange(-2000, 2001)]) for t in r(v0, v1)]
    for a, b in zip(d.vel, d.vel[1:]) if fast else ():
        b["v"] = [x + rng.randrange(-3, 4) * 10 for x in a["v"]]
    yaw, roll, pitch = rng.randrange(0, 36000), rng.randrange(-2000, 2000), rng.randrange(-2000, 2000)
    turn = rng.choice([0, 300, 3000, 9000]) if not fast else rng.choice([0, 100, 300])
    tilt = 100 if fast else 800
    for t in r(rng.randrange(0, 3000), span):
        d.ori.append(dict(t=t, a=[roll, pitch, yaw]))
        yaw = (yaw + rng.randrange(-turn, turn + 1)) % 36000 if turn else yaw
        if wild:
            roll = max(-4500, min(4500, roll + rng.randrange(-tilt, tilt + 1)))
            pitch = max(-4500, min(4500, pitch + rng.randrange(-tilt, tilt + 1)))
    y = rng.randrange(100, 3000) * 1000
    for t in r(-2000, span + 2500):
        d.dep.append(dict(t=t, y=y))
        y = max(1000, y + rng.randrange(-20000, 20001) // (100 if fast else 1))
    y = rng.randrange(10, 200) * 1000
    for t in r(-2000, span + 2500):
        d.alt.append(dict(t=t, y=y))
        y = max(1000, y + rng.randrange(-5000, 5001))
    for i in range(imgs):
        t = rng.randrange(-1500, span + 1500) // grid * grid
        if rng.random() < .15 and d.ori:
            t = rng.choice(d.ori)["t"]
        d.img.append(t)
    d.img = [dict(t=t, t2=t + rng.choice([0, 0, 3, -4]), f="i/%07d_LC.tif" % k, f2="i/%07d_RC.tif" % k) for k, t in enumerate(sorted(set(d.img)))]
    last = -10 ** 9
    for i in d.img:                       # the second camera keeps the order of the first
        if i["t2"] <= last:
            i["t2"] = i["t"]
        last = max(last, i["t2"])
    n, e = rng.randrange(-500, 500) * 1000, rng.randrange(-500, 500) * 1000
    ts = sorted(rng.sample(range(-3000, span + 3000), usbl)) if usbl else []
    for t in ts:
        d.usbl.append(dict(t=t, n=n, e=e, d=rng.randrange(100, 3000) * 1000))
        n += rng.randrange(-20, 21) * 1000
        e += rng.randrange(-20, 21) * 1000
    return d


def enough(d):
    """at least two poses and the velocities that carry them"""
    if len(d.vel) < 2 or len(d.ori) < 3:
        return False
    k = [o for o in d.ori if d.vel[0]["t"] <= o["t"] <= d.vel[-1]["t"]]
    return len(k) >= 2


def wgs(lat):
    """millimetres per 1e-4 degree of latitude and longitude (WGS84 ellipsoid)"""
    import math
    a, e2, p = 6378137.0, 0.0066943799901413165, math.radians(lat)
    w = 1 - e2 * math.sin(p) ** 2
    return round(math.radians(a * (1 - e2) / w ** 1.5) / 10), round(math.radians(a * math.cos(p) / w ** .5) / 10)


def imaging(d, rng, kind=None):
    """choose an imaging system; returns [(table suffix, sample list key, frame)]"""
    kind = kind or rng.choice(["acfr_standard", "seaxerocks_3", "biocam0", "biocam1"])
    m = D.mission_dict()
    cams = [dict(name="LC", origin="cam1", path="image/i1"), dict(name="RC", origin="cam2", path="image/i1")]
    d.las = []
    tabs = [("LC", "img1", "cam1"), ("RC", "img2", "cam2")]
    fmt = kind
    if kind == "seaxerocks_3":
        cams = [dict(name="Cam51707923", origin="cam1", path="i"), dict(name="Cam51707925", origin="cam2", path="i"), dict(name="LM165", origin="cam3", path="i")]
        tabs = [("Cam51707923", "img1", "cam1"), ("Cam51707925", "img2", "cam2"), ("LM165_laser", "las", "cam3")]
    elif kind.startswith("biocam"):
        fmt = "biocam"
        k = int(kind[-1])
        cams[0].update(records_laser=k == 0)
        cams[1].update(records_laser=k == 1)
        tabs.append(("RC_laser", "las", "cam%d" % (k + 1)))
    m["image"] = {"format": fmt, "timezone": "utc", "timeoffset": 0.0, "cameras": cams}
    d.mission = m
    return tabs
