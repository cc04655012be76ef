"""Synthetic raw dives described by abstract content, laid out for `auv_nav parse'."""
import json, random
from pathlib import Path
import dive as D
import rawlogs as R

NOON = 12 * 3600 * 1000      # logs are written around noon so that time zones stay within the day


class Sensor:
    """time zone and offset of one sensor: epoch = local - tz + offset."""
    def __init__(self, tz="utc", off_ms=0):
        self.tz, self.off = tz, off_ms

    @property
    def hours(self):
        return {"utc": 0, "UTC": 0, "jst": 9, "JST": 9, "cet": 1, "CET": 1}.get(self.tz, self.tz)

    def local(self, ms):
        return int(ms + self.hours * 3600000 - self.off)

    def cfg(self):
        return {"timezone": self.tz, "timeoffset": self.off / 1000.0}


def rand_sensor(rng, names=("utc", "UTC", "jst", "JST", "cet"), hours=(0, 1, -3, 5.5)):
    tz = rng.choice(list(names) + list(hours))
    return Sensor(tz, rng.choice([0, 0, 250, -1500, 30000]))


class World:
    def __init__(self, root, dive=D.DIVE, vehicle=None):
        self.root, self.dive = Path(root), dive
        self.mission = D.mission_dict(usbl=None, image=None)
        self.vehicle = vehicle or D.vehicle_dict()
        self.ins = Sensor()
        self.phins, self.gaps, self.images, self.tide, self.tide_fmt = None, None, None, None, None

    def set_ins(self, s):
        self.ins = s
        for k in ("velocity", "orientation", "depth", "altitude"):
            self.mission[k].update(s.cfg())

    def write(self):
        m = self.mission
        raw, proc, conf = D.build(self.root, dive=self.dive, mission=m, vehicle=self.vehicle)
        self.raw, self.proc, self.conf = raw, proc, conf
        if self.phins is not None:
            p = raw / "nav/phins"
            p.mkdir(parents=True, exist_ok=True)
            (p / "20200101_phins.txt").write_text("\n".join(self.phins) + "\n")
        for name, lines in (self.gaps or {}).items():
            p = raw / "nav/gaps"
            p.mkdir(parents=True, exist_ok=True)
            (p / name).write_text("\n".join(lines) + "\n")
        for name in self.images or []:
            p = raw / "image/i1"
            p.mkdir(parents=True, exist_ok=True)
            (p / name).touch()
        for name, text in (self.tide or {}).items():
            p = raw / "nav/tide" / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text)
        return raw

    def nav(self):
        return json.loads((self.proc / "nav/nav_standard.json").read_text())


USBL_CFG = {"format": "gaps", "filepath": "nav/gaps/", "timezone": "utc", "timeoffset": 0.0,
            "label": 2, "std_factor": 0.01, "std_offset": 2.0}
IMAGE_CFG = {"format": "acfr_standard", "timezone": "utc", "timeoffset": 0.0,
             "cameras": [{"name": "LC", "origin": "cam1", "path": "image/i1"},
                         {"name": "RC", "origin": "cam2", "path": "image/i1"}]}


def fix(ms, sensor, depth, lat=26.001, lon=127.001, dt=400, ident=2):
    """the GAPS sentences around one fix: ship position and heading, fix, ship position and heading."""
    L = sensor.local
    return [R.gaps_hdt(100.0), R.gaps_pos(L(ms - dt), 0, 26.0, 127.0, 0.0), R.gaps_pos(L(ms), ident, lat, lon, depth),
            R.gaps_pos(L(ms + dt), 0, 26.0, 127.0, 0.0), R.gaps_hdt(100.0)]
