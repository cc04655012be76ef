"""Scratch dives for correct_images: images, pose tables and configuration."""
import argparse, contextlib, os, warnings
from pathlib import Path
import numpy as np, yaml
import dive as D, lib

HEAD = ["relative_path", "northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]", "altitude [m]", "timestamp [s]",
        "latitude [deg]", "longitude [deg]", "x_velocity [m/s]", "y_velocity [m/s]", "z_velocity [m/s]"]
H, W = 10, 12


def image_name(k, cam="LC"):
    return "PR_2020%02d%02d_%02d%02d%02d_%03d_%s16" % (1 + k // 2000 % 12, 1 + k % 27, k // 7 % 24, k * 13 % 60, k * 7 % 60, k * 37 % 1000, cam)


class ImgDive:
    """images: list of dict(name, px (H,W[,3] uint8/uint16 array)); table: list of dict(name, alt, t)"""

    def __init__(self, root, name=D.DIVE, cams=("LC",), kind="grayscale", bits=8, ext="png"):
        self.root, self.name, self.cams, self.kind, self.bits, self.ext = Path(root), name, cams, kind, bits, ext
        self.images, self.tables, self.lists = {c: [] for c in cams}, {c: [] for c in cams}, {}
        self.json, self.source, self.folder = "json_renav_20200101_120000_20200101_130000", "dead_reckoning", "image/i20200101"
        self.conf = dict(method="colour_correction", metric="altitude", path="json_renav_*", parse=(2, 6), process=(2, 6), smoothing="mean",
                         brightness=30, contrast=3, undistort=False, comp="png", gain=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], sub=[0, 0, 0])

    @property
    def raw(self): return self.root / "raw/cruise" / self.name
    @property
    def proc(self): return self.root / "processed/cruise" / self.name
    @property
    def cfg(self): return self.root / "configuration/cruise" / self.name

    def rel(self, name):
        return "%s/%s.%s" % (self.folder, name, self.ext)

    def write_images(self):
        import imageio.v2 as iio
        (self.raw / self.folder).mkdir(parents=True, exist_ok=True)
        for c in self.cams:
            for im in self.images[c]:
                iio.imwrite(self.raw / self.rel(im["name"]), im["px"])

    def write_tables(self, source=None):
        source = source or self.source
        f = self.proc / self.json / "csv" / source
        f.mkdir(parents=True, exist_ok=True)
        for c in self.cams:
            with open(f / ("auv_%s_%s.csv" % ("ekf" if source == "ekf" else "dr", c)), "w") as o:
                o.write(",".join(HEAD) + "\n")
                for r in self.tables[c]:
                    o.write(",".join(str(x) for x in [self.rel(r["name"]), 1.0, 2.0, 30.0, 0, 0, 10.0, r["alt"], r["t"], 26.0, 127.0, .1, 0, 0]) + "\n")

    def write_conf(self, suffix=""):
        k = self.conf
        self.cfg.mkdir(parents=True, exist_ok=True)
        alt = dict(parse=dict(min_m=k["parse"][0], max_m=k["parse"][1]), process=dict(min_m=k["process"][0], max_m=k["process"][1]))
        y = dict(version=2, method=k["method"], colour_correction=dict(distance_metric=k["metric"], metric_path=k["path"], altitude_filter=alt,
                 smoothing=k["smoothing"], window_size=3),
                 cameras=[dict(camera_name=c, image_file_list=dict(parse=self.lists.get((c, "parse"), "none"), process=self.lists.get((c, "process"), "none")),
                               colour_correction=dict(brightness=k["brightness"], contrast=k["contrast"]),
                               manual_balance=dict(subtractors_rgb=k["sub"], colour_gain_matrix_rgb=k["gain"])) for c in self.cams],
                 output_settings=dict(undistort=k["undistort"], compression_parameter=k["comp"]))
        (self.cfg / ("correct_images%s.yaml" % ("_" + suffix if suffix else ""))).write_text(yaml.safe_dump(y, sort_keys=False))

    def write_list(self, cam, mode, names):
        f = "list_%s_%s.txt" % (cam, mode)
        self.cfg.mkdir(parents=True, exist_ok=True)
        (self.cfg / f).write_text("\n".join(n + "." + self.ext for n in names) + "\n")
        self.lists[(cam, mode)] = f

    def write(self):
        m = D.mission_dict()
        m["image"]["cameras"] = [dict(name=c, origin="cam%d" % (i + 1), path=self.folder) for i, c in enumerate(self.cams)]
        cam = {"camera_system": "acfr_standard", "cameras": [
            {"name": n, "type": self.kind, "bit_depth": self.bits, "path": "image/i*/*%s*" % n, "extension": self.ext,
             "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxxxx.xxx"} for n in self.cams]}
        D.build(self.root, dive=self.name, mission=m, camera=cam)
        self.write_images()
        self.write_tables()
        self.write_conf()

    # ---------------------------------------------------------------- results
    def params(self, cam, suffix=""):
        return self.proc / "image" / cam / ("params_" + ("manual" if self.conf["method"] == "manual_balance" else self.conf["metric"]) + ("_" + suffix if suffix else ""))

    def npy(self, cam, name, suffix=""):
        p = self.params(cam, suffix) / (name + ".npy")
        return np.load(p) if p.exists() else None

    def outputs(self, cam):
        return [p for p in (self.proc / "image" / cam).glob("corrected_*") if p.is_dir()]


class Ink:
    """Stands in for figures, axes and colour bars: drawing is not under test (and pyplot is not thread-safe)."""
    def __getattr__(self, n): return Ink()
    def __call__(self, *a, **k): return Ink()
    def __getitem__(self, i): return Ink()
    def __setitem__(self, i, v): pass
    def __iter__(self): return iter((Ink(), Ink()))


@contextlib.contextmanager
def calm(workers=False):
    """Nothing is drawn; pools of the command run as threads of this process, or in sequence."""
    import joblib, matplotlib.pyplot as plt
    old = {n: getattr(plt, n) for n in dir(plt) if n[0].islower() and type(getattr(plt, n)).__name__ == "function"}
    for n in old:
        setattr(plt, n, Ink())
    here = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with (joblib.parallel_config(backend="threading") if workers else joblib.parallel_config(backend="sequential")):
                yield
    finally:
        for n, f in old.items():
            setattr(plt, n, f)
        os.chdir(here)


def opts(force, suffix):
    return (["-F"] if force else []) + (["--suffix", suffix] if suffix else [])


def parse(dives, force=False, suffix="", memmap=None, workers=False):
    loc = memmap or str(dives[0].root / "memmap")
    with calm(workers):
        return lib.cli("correct_images", "parse", *[d.raw for d in dives], *opts(force, suffix), "--memmap-location", loc)


def process(d, force=False, suffix="", workers=False):
    with calm(workers):
        return lib.cli("correct_images", "process", d.raw, *opts(force, suffix))
