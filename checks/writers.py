"""N14 concurrent writers of the result tables."""
import csv, hashlib, random, shutil, sys, threading, time
from pathlib import Path
import dive as D, navgen as V, renav as R
from lib import tlc_model, tlc_validate

GROUPS = {"dr": ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload"),
          "pf": ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload"),
          "ekf": ("auv_centre", "camera_1", "camera_2", "camera_3", "payload")}


class Disturbed:
    """Threads that start and run at random moments (seeded), or strictly one after another."""

    def __init__(self, rng):
        self.rng, self.failures, self.threads = rng, 0, []

    def __enter__(self):
        me = self
        self.start, self.hook, self.mkdir, self.interval = threading.Thread.start, threading.excepthook, Path.mkdir, sys.getswitchinterval()
        ours = lambda t: getattr(getattr(t, "_target", None), "__module__", "").startswith("auv_nav")

        def start(t):
            if not ours(t):
                return me.start(t)
            me.threads.append(t)
            if me.rng is None:
                me.start(t)
                t.join()
                return
            run, wait = t.run, me.rng.choice([0, 0, .005, .06])

            def later():
                time.sleep(wait)
                run()
            t.run = later
            me.start(t)

        def hook(args):
            me.failures += 1
        threading.Thread.start, threading.excepthook = start, hook
        self.saved = []
        if self.rng is not None:
            sys.setswitchinterval(1e-6)

            def mkdir(p, *a, **k):
                time.sleep(me.rng.choice([0, .002, .01]))
                return me.mkdir(p, *a, **k)
            Path.mkdir = mkdir
            import auv_nav.sensors as S
            for c in vars(S).values():
                for n in ("to_csv_row", "to_csv_cov_row", "to_sidescan_row"):
                    if isinstance(c, type) and n in vars(c):
                        f = vars(c)[n]
                        self.saved.append((c, n, f))

                        def slow(s, *a, _f=f, **k):
                            if me.rng.random() < .08:
                                time.sleep(me.rng.choice([0, .0005]))
                            return _f(s, *a, **k)
                        setattr(c, n, slow)
        return self

    def __exit__(self, *a):
        threading.Thread.start, threading.excepthook, Path.mkdir = self.start, self.hook, self.mkdir
        sys.setswitchinterval(self.interval)
        for c, n, f in self.saved:
            setattr(c, n, f)


def files(proc, fixes):
    res = []
    for p in sorted(Path(proc).glob("json_renav_*/csv/**/*")):
        if not p.is_file():
            continue
        text = p.read_text()
        lines = text.splitlines()
        odd = 0
        if p.suffix == ".csv":
            rd = [[x.strip() for x in r] for r in csv.reader(lines)]
            for r in rd[1:]:
                odd += len(r) != len(rd[0])
                for h, x in zip(rd[0], r):
                    if not h.startswith(("timestamp", "epoch", "northing", "easting", "depth [", "roll", "pitch", "heading", "altitude", "latitude", "longitude", "cov_")) or h.endswith("_std"):
                        continue      # a solution need not estimate its uncertainty
                    if x == "None" and not fixes and h.startswith(("latitude", "longitude")):
                        continue      # a track that is not anchored
                    try:
                        float(x)
                    except ValueError:
                        odd += 1
        odd += not text.endswith("\n")
        rel = str(p.relative_to(proc)).split("/csv/", 1)[1]
        res.append(dict(path=rel, sha=hashlib.sha1(text.encode()).hexdigest(), rows=max(0, len(lines) - 1), odd=odd))
    return res


def n14(ctx):
    rng = ctx.rng
    tlc_model(ctx, "Writers", "SPECIFICATION Spec\nCONSTANTS W = %d\nMaxRows = %d\nINVARIANTS Complete Prefix FolderFirst\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\n" % ctx.n((3, 2), (4, 2)))
    evs = []
    while len(evs) < ctx.n(36, 400):
        span = rng.choice([5000, 9000])
        pf, ekf, on = rng.random() < .4, rng.random() < .45, rng.random() < .92
        d = V.gen(rng, span=span, imgs=rng.choice([0, 1, 12, 25]), usbl=rng.choice([0, 3, 5]))
        if not V.enough(d):
            continue
        tabs = V.imaging(d, rng)
        ends = {o["t"] for o in d.ori}
        d.img = [i for i in d.img if i["t"] not in ends and i["t2"] not in ends]
        if len(tabs) == 3 and rng.random() < .8:
            d.las = [dict(t=t, f="l/%07d.tif" % k) for k, t in enumerate(sorted(set(rng.randrange(-1500, span + 1500) for _ in range(rng.choice([1, 9, 20]))) - ends))]
        R.add_payload(d, rng, span)
        if rng.random() < .4:
            d.ivel = [dict(t=t, v=[rng.randrange(-5000, 5000) for _ in range(3)]) for t in range(rng.randrange(0, 900), span, 700)]
        p = rng.choice([0, 0, .3, .6])
        flags = {g: {k: rng.random() >= p for k in ks} for g, ks in GROUPS.items()}
        fl = {(g, k): v for g, x in flags.items() for k, v in x.items()}
        flags["usbl"] = fl["usbl", "usbl"] = rng.random() >= p
        cfg = D.auv_nav_dict(ekf=ekf, pf=pf, csv=on, csv_flags=fl, smoother=rng.random() < .5)
        poses = [o["t"] for o in d.ori if d.vel[0]["td"] <= o["t"] <= d.vel[-1]["td"]]
        fixes = [u["t"] for u in d.usbl if poses[0] <= u["t"] <= poses[-1]]
        cams = [dict(name=n, flag="camera_%d" % (k + 1), ts=[s["t"] for s in R.samples(d, key)]) for k, (n, key, fr) in enumerate(tabs)]
        ev = dict(csv=on, pf=pf, ekf=ekf, flags=flags, span=[poses[0], poses[-1]], pfspan=[poses[0], poses[-1]], poses=len(poses), pfposes=len(poses) + len(fixes),
                  cams=[c for c in cams if c["ts"]], pls=[dict(name=k, ts=[s["t"] for s in x["rows"]]) for k, x in d.payload.items()],
                  sensors=dict(velocity_body=len(d.vel), velocity_inertial=len(d.ivel), orientation=len(d.ori), depth=len(d.dep), altitude=len(d.alt), usbl=len(d.usbl)), runs=[])
        seed = rng.randrange(10 ** 9)
        for k in range(3):
            root = ctx.work / "r"
            raw, proc, _ = d.build(root, cfg)
            import numpy
            numpy.random.seed(seed % 2 ** 31)
            random.seed(seed)
            with Disturbed(None if k == 0 else random.Random(seed + k)) as dist:
                st, val, con = V.run(raw)
                fs = files(proc, d.usbl)
                for t in dist.threads:
                    t.join()
            ev["runs"].append(dict(status=st, files=fs, failures=dist.failures, note=str(val)[-400:]))
            shutil.rmtree(root, ignore_errors=True)
        evs.append(ev)
    ctx.sample({k: v for k, v in evs[0].items() if k != "runs"})
    bad = tlc_validate(ctx, "TraceWriters", evs)
    ctx.cov["traces_validated_against_impl"] += 3 * len(evs)
    ctx.notes["tables"] = sum(len(e["runs"][0]["files"]) for e in evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["rows written for the laser poses of SLAM++ and the plots are not judged"]


CHECKS = {"N14": n14}
