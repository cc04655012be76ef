"""C02: command histories of correct_images."""
import hashlib, os, random, shutil
from pathlib import Path
import numpy as np
import imgdive as I
from lib import tlc_model, tlc_dump, tlc_validate, tree_hash

NAMES = {1: "20200101_010000_first_dive", 2: "20200102_020000_second_dive"}
CONF = {"u30": ("uniform", 30), "u40": ("uniform", 40), "a30": ("altitude", 30), "man": ("manual", 0), "man2": ("manual", 2)}
NEED = {"uniform": ["image_raw_mean.npy", "image_raw_std.npy"], "manual": [],
        "altitude": ["attenuation_parameters.npy", "correction_gains.npy", "image_corrected_mean.npy", "image_corrected_std.npy"]}
ROUND = ("images_map.npy", "distances_map.npy")


class Dive:
    def __init__(self, root, d, cams):
        self.d, self.v, self.c = d, 1, {"": "u30", "b": "u30"}
        self.x = I.ImgDive(root, NAMES[d], cams=cams, bits=8)
        self.x.conf.update(process=(0, 9), parse=(0, 9), contrast=20)

    def write(self):
        rng = random.Random(self.d * 100 + self.v)
        for c in self.x.cams:
            self.x.images[c], self.x.tables[c] = [], []
            for k in range(4):
                name = I.image_name(k * 3 + (0 if c == "LC" else 1), c)
                px = np.array([[rng.randrange(20, 160) for _ in range(I.W)] for _ in range(I.H)], np.uint8)
                self.x.images[c].append(dict(name=name, px=px))
                self.x.tables[c].append(dict(name=name, alt=2.0 + k + .1 * self.v, t=float(k)))
        if self.x.raw.exists():
            shutil.rmtree(self.x.raw)
        self.x.write()
        self.conf()

    def conf(self):
        for s in ("", "b"):
            m, q = CONF[self.c[s]]
            self.x.conf.update(method="manual_balance" if m == "manual" else "colour_correction", metric="altitude" if m == "manual" else m)
            self.x.conf.update(sub=[.01 * q] * 3) if m == "manual" else self.x.conf.update(brightness=q)
            self.x.write_conf(s)

    def groups(self, s):
        m, q = CONF[self.c[s]]
        t = "_" + s if s else ""
        gp = "params_" + m + t
        gi = "corrected_manual_gain_1_1_1_sub_%s_%s_%s" % ((q / 100 if q else 0.0,) * 3) if m == "manual" else "corrected_%s_mean_%d_std_20" % (m, q)
        return gp, gi + t

    def obs(self):
        res, base = [], self.x.proc / "image"
        for p in sorted(base.rglob("*")) if base.exists() else []:
            if p.is_file() and (p.suffix == ".npy" or p.parent.name.startswith("corrected")):
                h = hashlib.sha1(p.read_bytes().replace(str(self.x.root).encode(), b"ROOT")).hexdigest()[:12]
                res.append([p.parent.name, p.name if len(self.x.cams) == 1 or not p.parent.name.startswith("params") else p.parent.parent.name + "/" + p.name, h])
        return res

    def required(self, s):
        r = NEED[CONF[self.c[s]][0]]
        return [c + "/" + x for c in self.x.cams for x in r] if len(self.x.cams) > 1 else r


def run_cmd(op, dvs, force, s):
    if op == "parse":
        return I.parse([d.x for d in dvs], force=force, suffix=s)
    if op == "process":
        return I.process(dvs[0].x, force=force, suffix=s)
    import lib
    with I.calm():
        (dvs[0].x.root / "memmap").mkdir(exist_ok=True)
        os.chdir(dvs[0].x.root / "memmap")       # intermediate files go to the current folder
        o = I.opts(force, s)
        return lib.cli("correct_images", *(["correct"] if o else []), dvs[0].x.raw, *o)


class Refs:
    def __init__(self, work):
        self.work, self.memo, self.n = work, {}, 0

    def get(self, op, dvs, s, params):
        """first run on a fresh copy: (status, per dive parameters and images)"""
        key = (op, s, tuple((d.d, d.v, d.c[s], d.x.cams) for d in dvs), tuple(map(tuple, params)))
        if key not in self.memo:
            self.n += 1
            root = self.work / ("ref%d" % self.n)
            new = []
            for d in dvs:
                e = Dive(root, d.d, d.x.cams)
                e.v, e.c = d.v, dict(d.c)
                e.write()
                new.append(e)
                gp = d.groups(s)[0]
                if op == "process":
                    for c in d.x.cams:
                        f = d.x.proc / "image" / c / gp
                        if f.exists():
                            shutil.copytree(f, e.x.proc / "image" / c / gp)
            st, val, con = run_cmd(op, new, False, s)
            self.memo[key] = (st, [[x for x in e.obs() if x[0] == e.groups(s)[0]] for e in new], [[x for x in e.obs() if x[0] == e.groups(s)[1]] for e in new])
            shutil.rmtree(root)
        return self.memo[key]


def replay(ctx, hist, refs, evs, logs, rng):
    root = ctx.work / ("h%d" % rng.randrange(1 << 40))
    cams = rng.choice([("LC",), ("LC",), ("LC", "RC")])
    dvs = {d: Dive(root, d, cams) for d in NAMES}
    for d in dvs.values():
        d.write()
    evs.append(dict(op="start"))
    logs.append(None)
    for c in hist:
        op, note = c[0], ""
        ev = dict(op=op)
        if op == "change":
            dvs[c[1]].v += 1
            dvs[c[1]].write()
        elif op == "config":
            for d in ([1, 2] if c[1] == 12 else [c[1]]):
                dvs[d].c[c[3] if len(c) > 3 else ""] = c[2]
                dvs[d].conf()
        elif op == "lose":
            fs = [p for p in sorted((dvs[c[1]].x.proc / "image").rglob("*.npy")) if p.name not in ROUND] if (dvs[c[1]].x.proc / "image").exists() else []
            fs = [p for p in fs if len(c) < 3 or p.name == c[2]] or fs
            if fs:
                rng.choice(fs).unlink()
        else:
            ds = [1, 2] if c[1] == 12 else [c[1]]
            if len(ds) > 1 and rng.random() < .5:
                ds = [2, 1]
            s, mine = c[3], [dvs[d] for d in ds]
            gp, gi = mine[0].groups(s)
            pars = [x for x in mine[0].obs() if x[0] == gp] if op == "process" else []
            st0, rp, ri = refs.get(op, mine, s, pars)
            tree = lambda: [tree_hash(p) for d in dvs.values() for p in (d.x.raw, d.x.cfg)]
            before = tree()
            st, val, con = run_cmd(op, mine, bool(c[2]), s)
            note = str(val)[-500:]
            same = len({tuple(d.groups(s)) for d in mine}) == 1
            ev.update(dives=ds, force=bool(c[2]), gp=gp, gi=gi, status=st, refok=st0 == "ok", required=mine[0].required(s), refimg=ri[0],
                      refpar=[rp[ds.index(d)] if d in ds else [] for d in (1, 2)], inputs=tree() == before)
            # cameras from the first one on that lacks a parameter
            cs, names = mine[0].x.cams, {x[1] for x in pars}
            lack = [i for i, c in enumerate(cs) if any((c + "/" + q if len(cs) > 1 else q) not in names for q in NEED[CONF[mine[0].c[s]][0]])] if op == "process" else []
            ev.update(halfway=bool(lack and lack[0] > 0), lacking=[im["name"] + ".png" for c in cs[lack[0] if lack else 0:] for im in mine[0].x.images[c]])
            if not same:      # dives configured differently are refused together: judged by their own parameters
                ev["gp"] = gp
        ev["obs"] = [dvs[d].obs() for d in (1, 2)]
        evs.append(ev)
        logs.append(dict(history=hist, command=c, event={k: v for k, v in ev.items() if k != "obs"}, note=note))
    shutil.rmtree(root, ignore_errors=True)


def rand_hist(rng, n):
    h = []
    for _ in range(n):
        d, r, s, f = rng.choice([1, 1, 2]), rng.random(), rng.choice(["", "", "b"]), int(rng.random() < .4)
        if r < .3:
            h.append(["parse", rng.choice([d, d, 12]), f, s])
        elif r < .62:
            h.append(["process", d, f, s])
        elif r < .74:
            h.append(["correct", d, f, s])
        elif r < .82:
            h.append(["change", d])
        elif r < .93:
            h.append(["config", rng.choice([d, 12]), rng.choice(sorted(CONF)), s])
        else:
            h.append(["lose", d])
    return h


def c02(ctx):
    rng = ctx.rng
    tlc_model(ctx, "MCCorrect", "SPECIFICATION Spec\nCONSTANTS Dives = {d1, d2} MaxVer = 2 MaxCmds = %d\nINVARIANT Grounded\nPROPERTIES Protected Fresh\nCHECK_DEADLOCK FALSE\n" % ctx.n(4, 5))
    hists = tlc_dump(ctx, "GenCorrect", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Len3 = 3\n")
    ctx.notes["histories_enumerated"] = len(hists)
    rng.shuffle(hists)
    todo = hists[:ctx.n(24, 700)] + [rand_hist(rng, rng.randrange(6, 11)) for _ in range(ctx.n(12, 300))]
    # a parse that was interrupted: any one of the parameters is missing
    for q in ("u30", "a30"):
        for f in NEED[CONF[q][0]]:
            todo.append([["config", 1, q, ""], ["parse", 1, 0, ""], ["lose", 1, f], ["process", 1, rng.randrange(2), ""], ["parse", 1, rng.randrange(2), ""], ["process", 1, 1, ""], ["change", 1],
                         ["process", 1, rng.randrange(2), ""]])
    # every pair of configurations of the same dive
    for a in sorted(CONF):
        for b in sorted(CONF):
            if a != b:
                todo.append([["config", 1, a, ""], ["correct", 1, 0, ""], ["config", 1, b, ""], ["parse", 1, 0, ""], ["process", 1, 0, ""]])
    refs, evs, logs = Refs(ctx.work), [], []
    for h in todo:
        replay(ctx, h, refs, evs, logs, rng)
    ctx.sample(todo[0])
    ctx.sample(todo[-1])
    bad = tlc_validate(ctx, "TraceCorrect", evs, chunk=10 ** 9)
    ctx.cov["traces_validated_against_impl"] += len(todo)
    ctx.notes["commands_replayed"] = sum(1 for e in evs if e["op"] in ("parse", "process", "correct"))
    for i, why in bad:
        ctx.violation(why, logs[i])


CHECKS = {"C02": c02}
