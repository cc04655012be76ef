"""C06: image correction works with the configuration in force."""
import hashlib, importlib, shutil
from pathlib import Path
import numpy as np, yaml
import dive as D, imgdive as I, lib
from lib import tlc_model, tlc_validate

NOTHING = {"nothing": True}
DIVES = ("20200101_010000_first_dive", "20200102_020000_second_dive")
FORMATS = ["acfr_standard", "seaxerocks_3", "biocam", "biocam4000_15c", "hybis", "ntnu_stereo", "stereo_gopro", "voyis", "rosbag"]
TYPES = ["grayscale", "rgb", "bgr", "rggb", "grbg", "bggr", "gbrg"]


def num(x): return "%g" % float(x)
def vec(x): return " ".join(num(v) for v in np.ravel(x))
def mat(x): return ";".join(vec(r) for r in np.atleast_2d(np.array(x, float)))
def sha(p): return hashlib.sha1(Path(p).read_bytes()).hexdigest()[:12]
def flat(p): return {str(q.relative_to(p)): sha(q) for q in sorted(p.rglob("*")) if q.is_file()} if p.exists() else {}


def cam_rec(y):
    """a camera.yaml as the specification sees it"""
    return dict(system=y.get("camera_system", "absent"),
                cams=[dict(name=c["name"][1:].replace("/", "_") if "/" in c["name"] else c["name"], type=c["type"], bits=num(c["bit_depth"]), images=c.get("images", True)) for c in y["cameras"]])


def file_rec(y):
    """a correct_images.yaml as the specification sees it, absent entries marked"""
    k, f = y["colour_correction"], y["colour_correction"]["altitude_filter"]
    lim = lambda q: num(q["min_m"]) + " " + num(q["max_m"])
    old = "min_m" in f and "max_m" in f
    form = "new" if "parse" in f and "process" in f else "old" if old else "bad"
    cams = []
    for c in y["cameras"]:
        l, cc, mb = c.get("image_file_list") or {}, c.get("colour_correction") or {}, c.get("manual_balance") or {}
        cams.append(dict(name=c["camera_name"], parse=l.get("parse", "absent"), process=l.get("process", "absent"),
                         brightness=num(cc["brightness"]) if "brightness" in cc else "absent", contrast=num(cc["contrast"]) if "contrast" in cc else "absent",
                         sub=vec(mb["subtractors_rgb"]) if "subtractors_rgb" in mb else "absent", gain=mat(mb["colour_gain_matrix_rgb"]) if "colour_gain_matrix_rgb" in mb else "absent"))
    return dict(version=num(y["version"]) if "version" in y else "absent", method=y["method"], metric=k["distance_metric"], path=str(k["metric_path"]), form=form,
                parse=lim(f["parse"]) if form == "new" else lim(f) if old else "", process=lim(f["process"]) if form == "new" else "",
                smoothing=k["smoothing"], window=num(k["window_size"]), undistort=str(bool(y["output_settings"]["undistort"])), comp=y["output_settings"]["compression_parameter"], cams=cams)


DETAILS = ["method", "metric", "smoothing", "window", "order", "drop", "name", "bright", "limits", "list", "comp", "undistort", "path", "gain", "contrast"]


class Stop(Exception):
    pass


class Watch:
    """Records what a corrector works with at the moment it turns to the images, and stops there."""
    def __init__(self): self.uses, self.dives = [], []

    def __enter__(self):
        C = importlib.import_module("correct_images.corrector").Corrector
        self.C, self.old = C, (C.get_imagelist, C.parse, C.process)
        parse, process, me = C.parse, C.process, self

        def note(c, mode):
            colour = c.correction_method == "colour_correction"
            lst = c.user_specified_image_list
            lim = lambda a, b: num(a) + " " + num(b)
            u = dict(mode=c.mode, cam=c.camera.name, type=c._type, bits=num(c.loader.bit_depth), method=c.correction_method, metric=c.distance_metric, path=str(c.distance_path),
                     parse=lim(c.parse_altitude_min, c.parse_altitude_max), process=lim(c.process_altitude_min, c.process_altitude_max),
                     smoothing=c.smoothing, window=num(c.window_size), undistort=str(bool(c.undistort)), comp=c.output_format, list=str(lst),
                     brightness=num(c.brightness) if colour else "", contrast=num(c.contrast) if colour else "",
                     sub="" if colour else vec(c.subtractors_rgb), gain="" if colour else mat(c.color_gain_matrix_rgb))
            me.uses.append(dict(u=u, d=1 + me.dives.index(Path(c.path_raw).name)))
            if mode == "process":
                raise Stop

        def guard(f):
            def run(c, *a, **k):
                try:
                    return f(c, *a, **k)
                except (Stop, SystemExit):       # "not enough images": none were read
                    return None
            return run
        C.get_imagelist, C.parse, C.process = note, guard(parse), guard(process)
        return self

    def __exit__(self, *a):
        self.C.get_imagelist, self.C.parse, self.C.process = self.old


class Defaults:
    def __init__(self):
        self.cams, self.files, self.camhash, self.filehash = {}, {}, {}, {}
        root = Path(lib.SRC)
        for p in sorted((root / "auv_nav").rglob("camera.yaml")):
            n = str(p.parent.relative_to(root / "auv_nav" / "default_yaml"))
            self.cams[n], self.camhash[n] = yaml.safe_load(p.read_text()), sha(p)
        for p in sorted((root / "correct_images").rglob("correct_images.yaml")):
            self.files[p.parent.name], self.filehash[p.parent.name] = yaml.safe_load(p.read_text()), sha(p)


class World:
    def __init__(self, root, rng, defs):
        self.root, self.rng, self.defs = Path(root), rng, defs
        self.st = [dict(fmt=None, raw=None, cfg=None, files={}) for _ in DIVES]

    def raw(self, d): return self.root / "raw/cruise" / DIVES[d]
    def cfg(self, d): return self.root / "configuration/cruise" / DIVES[d]
    def proc(self, d): return self.root / "processed/cruise" / DIVES[d]

    # ------------------------------------------------------------ contents
    def camera(self, fmt, base=None):
        rng = self.rng
        if base and rng.random() < .75:
            y = yaml.safe_load(yaml.safe_dump(base))
            for c in y["cameras"]:
                if rng.random() < .25:
                    c["type"] = rng.choice(TYPES)
            return y
        names = rng.sample(["LC", "RC", "XA", "stills", "scorpio"], rng.randint(1, 3))
        y = dict(camera_system=fmt if rng.random() < .9 else rng.choice(FORMATS + ["acfr"]),
                 cameras=[dict(name=n, type=rng.choice(TYPES) if rng.random() < .97 else "mono", bit_depth=rng.choice([8, 8, 12, 16]), path="image/i*/*%s*" % n, extension="png",
                               filename_to_date="xxxYYYYMMDDxhhmmssxfffxxxxx.xxx") for n in names])
        if rng.random() < .03:
            del y["camera_system"]
        return y

    def file(self, cams, base=None, details=None):
        rng = self.rng
        if base and (details is not None or rng.random() < .7):       # like another one, but for a detail or two
            y = yaml.safe_load(yaml.safe_dump(base))
            for what in rng.choices(DETAILS, k=rng.choice([0, 1, 1, 2])) if details is None else details:
                k = y["colour_correction"]
                c = rng.choice(y["cameras"])
                if what == "method": y["method"] = "manual_balance" if y["method"] == "colour_correction" else "colour_correction"
                elif what == "metric": k["distance_metric"] = rng.choice(["uniform", "altitude", "depth_map", "none"])
                elif what == "smoothing": k["smoothing"] = rng.choice(["mean", "median", "mean_trimmed"])
                elif what == "window": k["window_size"] = rng.randint(1, 9)
                elif what == "order": y["cameras"].reverse()
                elif what == "drop" and len(y["cameras"]) > 1: y["cameras"].pop()
                elif what == "name": c["camera_name"] = rng.choice(["LC", "RC", "XA", "other"])
                elif what == "bright": c["colour_correction"] = dict(brightness=rng.randint(1, 90))
                elif what == "contrast": c["colour_correction"] = dict(contrast=rng.randint(1, 40))
                elif what == "gain": c["manual_balance"] = dict(colour_gain_matrix_rgb=[[2, 0, 0], [0, 3.5, 0], [.25, 0, 1]], subtractors_rgb=[.1, .2, .3])
                elif what == "limits" and "parse" in k["altitude_filter"]: k["altitude_filter"][rng.choice(["parse", "process"])] = dict(min_m=rng.randint(0, 3), max_m=rng.randint(4, 20))
                elif what == "list": c["image_file_list"] = {rng.choice(["parse", "process"]): "only_%d.txt" % rng.randint(1, 9)}
                elif what == "comp": y["output_settings"]["compression_parameter"] = rng.choice(["png", "tiff", "jpg"])
                elif what == "undistort": y["output_settings"]["undistort"] = not y["output_settings"]["undistort"]
                elif what == "path": k["metric_path"] = "json_renav_2020010%d" % rng.randint(1, 9)
            return y
        lim = lambda: dict(min_m=rng.choice([0, 1, 1.5, 2]), max_m=rng.choice([4, 6.5, 12]))
        form = rng.random()
        f = dict(parse=lim(), process=lim()) if form < .75 else lim() if form < .95 else rng.choice([dict(parse=lim()), dict(process=lim()), dict(min_m=2), {}])
        names = [c["name"] for c in cams] if cams else ["LC"]
        names = sorted(set(names), key=names.index)
        if rng.random() < .3:
            names = names[1:] + ["other"]
        entries = []
        for n in names:
            c = dict(camera_name=n)
            if rng.random() < .7: c["image_file_list"] = rng.choice([None, dict(parse="a.txt"), dict(process="b.txt"), dict(parse="c.txt", process="d.txt"), dict(parse="none", process="none")])
            if rng.random() < .7: c["colour_correction"] = rng.choice([dict(brightness=25), dict(contrast=7), dict(brightness=rng.randint(5, 95), contrast=rng.randint(2, 30)), dict(brightness=40.5, contrast=6)])
            if rng.random() < .7: c["manual_balance"] = rng.choice([dict(subtractors_rgb=[.1, .2, 0]), dict(colour_gain_matrix_rgb=[[2, 0, 0], [0, 3, 0], [0, 0, 4]]),
                                                                    dict(subtractors_rgb=[1, 2, 3], colour_gain_matrix_rgb=[[1.5, 0, .1], [0, 2, 0], [0, 0, 3]])])
            entries.append(c)
        y = dict(version=2, method=rng.choice(["colour_correction"] * 6 + ["manual_balance"] * 4 + ["automatic"] * (rng.random() < .3)),
                 colour_correction=dict(distance_metric=rng.choice(["uniform", "altitude", "depth_map", "none"] * 4 + ["distance"] * (rng.random() < .5)), metric_path=rng.choice(["json_renav_*", "json_renav_20200101"]), altitude_filter=f,
                                        smoothing=rng.choice(["mean", "median", "mean_trimmed"]), window_size=rng.randint(1, 7)),
                 cameras=entries, output_settings=dict(undistort=rng.random() < .3, compression_parameter=rng.choice(["png", "tiff"])))
        if rng.random() < .04:
            del y["version"]
        return y

    # ------------------------------------------------------------ on disk
    def mission(self, d, fmt):
        self.st[d]["fmt"] = fmt
        self.raw(d).mkdir(parents=True, exist_ok=True)
        (self.raw(d) / "vehicle.yaml").write_text(yaml.safe_dump(D.vehicle_dict(), sort_keys=False))
        if fmt is None:
            (self.raw(d) / "mission.yaml").unlink(missing_ok=True)
            return
        m = D.mission_dict()
        m["image"]["format"] = fmt
        (self.raw(d) / "mission.yaml").write_text(yaml.safe_dump(m, sort_keys=False))

    def put_cam(self, d, where, y):
        self.st[d][where] = y
        p = (self.raw(d) if where == "raw" else self.cfg(d)) / "camera.yaml"
        p.parent.mkdir(parents=True, exist_ok=True)
        if y is None:
            p.unlink(missing_ok=True)
        else:
            z = dict(y, cameras=[{k: v for k, v in c.items() if k != "images"} for c in y["cameras"]])
            p.write_text(yaml.safe_dump(z, sort_keys=False))

    def name(self, sfx): return "correct_images%s.yaml" % ("_" + sfx if sfx else "")

    def put_file(self, d, sfx, y):
        p = self.cfg(d) / self.name(sfx)
        p.parent.mkdir(parents=True, exist_ok=True)
        if y is None:
            p.unlink(missing_ok=True)
        else:
            p.write_text(yaml.safe_dump(y, sort_keys=False) + ("# %d\n" % self.rng.randint(0, 10 ** 6)))

    def active(self, d):
        s = self.st[d]
        c = s["cfg"] or s["raw"]
        if c is None:
            names = {"acfr_standard": "ts1/SSK17-01", "seaxerocks_3": "ae2000/YK17-23C", "biocam": "as6/DY109", "biocam4000_15c": "alr/jc220", "hybis": "hybis", "ntnu_stereo": "ntnu_stereo/tautra21",
                     "stereo_gopro": "smarty200/stereo_gopro", "voyis": "smarty200/voyis", "rosbag": "rosbag/grassmap"}
            c = self.defs.cams.get(names.get(s["fmt"], ""))
        return c

    def images(self, d):
        """an image for every camera that shall have some, and the time tables of the shipped definitions"""
        import imageio.v2 as iio
        shutil.rmtree(self.raw(d) / "image", ignore_errors=True)
        (self.raw(d) / "image" / "i0").mkdir(parents=True)
        for t, text in (("SeaXerocksData0/Xviii/FileTime.csv", "index,date,time,ms\n1,20200101,010203,004\n"), ("SeaXerocksData0/LM165/FileTime.csv", "index,date,time,ms\n1,20200101,010203,004\n"),
                        ("filelist.csv", "file_left,number_left,file_right,number_right,epoch\nl0000001.JPG,1,r0000001.JPG,1,1577840523.5\n")):
            (self.raw(d) / "image" / t).parent.mkdir(parents=True, exist_ok=True)
            (self.raw(d) / "image" / t).write_text(text)
        if any(c["path"].startswith("image/*") for c in (self.active(d) or dict(cameras=[]))["cameras"]):
            shutil.rmtree(self.raw(d) / "image" / "SeaXerocksData0")     # one folder only
            (self.raw(d) / "image" / "filelist.csv").unlink()
        for c in (self.active(d) or dict(cameras=[]))["cameras"]:
            if not c.get("images", True):
                continue
            s = c["path"].split("*")
            if len(s) == 1: p = self.raw(d) / s[0] / "one"
            elif len(s) == 2: p = self.raw(d) / (s[0] + "0") / s[1].strip("/") / "one"
            elif len(s) == 3: p = self.raw(d) / (s[0] + "i0" if s[0] == "image/" else s[0] + "0") / ("one" + s[2])
            else: p = self.raw(d) / (s[0] + "0") / ("1" + s[2] + "2")
            p.parent.mkdir(parents=True, exist_ok=True)
            p = p.with_name(p.name + "." + c["extension"])
            if c["extension"] in ("raw", "bag"):
                p.write_bytes(b"0" * 64)
            else:
                iio.imwrite(p, np.full((6, 8), 90, np.uint8))

    # ------------------------------------------------------------ a command
    def run(self, mode, ds, sfx, force):
        ev = dict(op="run", mode=mode, suffix=sfx, fname=self.name(sfx), sfxok=all(c.isascii() and (c.isalnum() or c in "-_") for c in sfx), dives=[], status="")
        pre = []
        for d in ds:
            self.images(d)
            s = self.st[d]
            p = self.cfg(d) / self.name(sfx)
            y = yaml.safe_load(p.read_text()) if p.exists() else None
            (self.proc(d) / "log").mkdir(parents=True, exist_ok=True)
            for q in (self.proc(d) / "log").glob("*"):
                q.unlink()
            pre.append(flat(self.raw(d)))
            ev["dives"].append(dict(fmt=s["fmt"] or "", raw=cam_rec(s["raw"]) if s["raw"] else NOTHING, cfg=cam_rec(s["cfg"]) if s["cfg"] else NOTHING,
                                    file=file_rec(y) if y else NOTHING, hash=sha(p) if y else "", before=sorted(flat(self.cfg(d)).items())))
        argv = [mode] + [self.raw(d) for d in ds] + I.opts(force, sfx)
        if mode == "correct" and not sfx and not force and self.rng.random() < .5:
            argv = argv[1:]                      # the short form of the command
        (self.root / "memmap").mkdir(parents=True, exist_ok=True)
        if mode == "parse":
            argv += ["--memmap-location", self.root / "memmap"]
        with Watch() as w, I.calm():
            import os
            os.chdir(self.root / "memmap")
            w.dives = [DIVES[d] for d in ds]
            st, val, con = lib.cli("correct_images", *argv)
        ev.update(status=st, uses=w.uses, note="" if st == "ok" else str(val)[-600:] + str(con)[-300:], blind=False)
        fm = sorted({self.st[d]["fmt"] for d in ds if self.st[d]["fmt"]})
        for i, d in enumerate(ds):
            v = ev["dives"][i]
            logs = self.proc(d) / "log"
            v.update(after=sorted(flat(self.cfg(d)).items()), logs=sorted(set(flat(logs).values())), rawsame=flat(self.raw(d)) == pre[i])
            a = self.active(d)
            ev["blind"] = ev["blind"] or bool(a) and any(c["extension"] == "bag" for c in a["cameras"])
            new = self.cfg(d) / "camera.yaml"
            if self.st[d]["cfg"] is None and new.exists():
                self.st[d]["cfg"] = yaml.safe_load(new.read_text())
        df = self.defs
        ev.update(defcams={k: cam_rec(v) for k, v in df.cams.items()}, camhash=df.camhash, deffiles={k: file_rec(v) for k, v in df.files.items()}, defhash=df.filehash)
        return ev

    def joint(self, detail):
        """two dives that differ in one detail of their correction files, parsed together"""
        rng, names = self.rng, self.rng.sample(["LC", "RC", "XA"], 2)
        for d in (0, 1):
            self.mission(d, "acfr_standard")
            self.put_cam(d, "raw", dict(camera_system="acfr_standard", cameras=[dict(name=n, type=rng.choice(TYPES), bit_depth=8, path="image/i*/*%s*" % n, extension="png",
                                                                                   filename_to_date="xxxYYYYMMDDxhhmmssxfffxxxxx.xxx") for n in names]))
        a = self.file([dict(name=n) for n in names])
        a.update(version=2, method=rng.choice(["manual_balance", "colour_correction"]))
        a["cameras"] = [dict(camera_name=n) for n in names]
        a["colour_correction"].update(distance_metric=rng.choice(["uniform", "altitude"]), altitude_filter=dict(parse=dict(min_m=1, max_m=30), process=dict(min_m=2, max_m=40)), window_size=rng.choice([20, 30]))
        b = self.file([], a, [detail] if detail else [])
        for d, y in zip(rng.choice([(0, 1), (1, 0)]), (a, b)):
            self.put_file(d, "", y)
        return self.run("parse", rng.choice([[0, 1], [1, 0]]), "", False)

    def step(self):
        """some edits, then a command"""
        rng = self.rng
        for d in (0, 1):
            s = self.st[d]
            for _ in range(rng.choice([0, 1, 1, 2])):
                x = rng.random()
                other = self.st[1 - d]
                if x < .15: self.put_cam(d, "raw", None)
                elif x < .3: self.put_cam(d, "cfg", None)
                elif x < .45: self.put_cam(d, rng.choice(["raw", "cfg"]), self.camera(s["fmt"] or "acfr_standard", other["cfg"] or other["raw"]))
                elif x < .85:
                    sfx, a = rng.choice(["", "b"]), self.active(d)
                    o = [p for p in (self.cfg(1 - d) / self.name(sfx), self.cfg(d) / self.name(sfx)) if p.exists()]
                    self.put_file(d, sfx, self.file(a["cameras"] if a else [], yaml.safe_load(rng.choice(o).read_text()) if o else None))
                elif x < .95: self.put_file(d, rng.choice(["", "b"]), None)
                elif x < .98: self.mission(d, rng.choice([other["fmt"], rng.choice(FORMATS), None, "ae2000"]))
        mode = rng.choice(["parse", "parse", "parse", "process", "correct"])
        ds = rng.choice([[0], [0, 1], [1, 0], [0, 1]]) if mode == "parse" else [rng.randint(0, 1)]
        for d in ds:
            for w in ("raw", "cfg"):
                y = self.st[d][w]
                if y:
                    for c in y["cameras"]:
                        c["images"] = mode != "process" or "*" in c["path"] and c["path"].count("*") == 3 and rng.random() < .8 or c["path"].count("*") != 3
        sfx = rng.choice(["", "", "", "b", "b", "b_2-X", "b.c", "x/y"][: 8 if rng.random() < .3 else 5])
        return self.run(mode, ds, sfx, rng.random() < .3)


def C06(ctx):
    defs, evs = Defaults(), []
    def add(e):
        evs.append(e)
        if len(evs) in (1, 20):
            ctx.sample("%s %d dives suffix %r: %s" % (e["mode"], len(e["dives"]), e["suffix"], e["status"]))
    n = ctx.n(36, 400)
    for k in range(n):
        w = World(ctx.work / ("w%d" % k), ctx.rng, defs)
        f = FORMATS[k % len(FORMATS)] if k < 2 * len(FORMATS) else ctx.rng.choice(FORMATS + ["acfr_standard"] * 4)
        for d in (0, 1):
            w.mission(d, f if ctx.rng.random() < .92 else ctx.rng.choice(FORMATS + [None, "ae2000"]))
        if k < 2 * len(FORMATS):                 # nothing but the mission: the shipped definitions
            add(w.run(("parse", "process", "correct")[k % 3], [0], "" if k < len(FORMATS) else "b", False))
        for _ in range(ctx.n(6, 8)):
            add(w.step())
        shutil.rmtree(w.root, ignore_errors=True)
    for k in range(ctx.n(2, 12)):
        for what in DETAILS + [None]:
            w = World(ctx.work / ("j%d%s" % (k, what)), ctx.rng, defs)
            add(w.joint(what))
            shutil.rmtree(w.root, ignore_errors=True)
    bad = tlc_validate(ctx, "TraceConfig", evs, chunk=120)
    for i, why in bad:
        e = {k: v for k, v in evs[i].items() if k not in ("defcams", "deffiles", "camhash", "defhash")}
        ctx.violation("configuration: " + why, e)
    ctx.cov["traces_validated_against_impl"] += n
    ok = [e for e in evs if e["status"] == "ok"]
    ctx.notes.update(commands=len(evs), accepted=len(ok), together=sum(len(e["dives"]) == 2 for e in ok), cameras_watched=sum(len(e["uses"]) for e in evs))
    ctx.assumptions.append("every camera named in the correction file has an image when `parse' runs (a camera without images ends `parse' with an exception)")
    tlc_model(ctx, "MCConfig", 'SPECIFICATION Spec\nCONSTANTS\n Formats = {"acfr_standard", "hybis"}\n Systems <- MSystems\n Files <- MFiles\n Marks = {"", "b"}\n Dives = {1, 2}\n'
              ' MaxSteps = %d\nINVARIANTS Kept Seeded InForce OneFormat Shared\nCHECK_DEADLOCK FALSE\n' % ctx.n(3, 4))


CHECKS = {"C06": C06}
