"""N03/N04: command histories of auv_nav parse and process."""
import hashlib, json, os, shutil, random
from pathlib import Path
import yaml
import lib, dive as D, rawlogs as R, world as W
from lib import run_code, tlc_model, tlc_dump, tlc_validate, tree_hash

NAMES = {1: "20200101_010000_first_dive", 2: "20200102_020000_second_dive"}
SPANS = {"full": ("", ""), "part": ("20200101120002", "20200101120008"), "none": ("20210101000000", "20210101000100")}
PARTS = ["json_data_info.html", "timestamp_history.html"]
BROKEN = "version: 2\norigin: {latitude: [\n"


class Dive:
    """raw inputs of one dive as a function of (dive number, version)"""
    def __init__(self, root, d):
        self.root, self.d, self.v, self.c, self.broken = Path(root), d, 1, 1, False
        self.navver = 0
        self.write()
        self.write_conf()

    def write(self):
        rng = random.Random(1000 * self.d + self.v)
        w = W.World(self.root, dive=NAMES[self.d])
        self.w = w
        w.mission["usbl"] = dict(W.USBL_CFG)
        w.mission["image"] = json.loads(json.dumps(W.IMAGE_CFG))
        w.vehicle = D.vehicle_dict(cam1=D.frame(surge=0.1 * self.v, heave=0.5), dvl=D.frame(surge=rng.randrange(3)))
        w.phins, w.gaps = [R.ph_attstd(.1, .2, .3)], {"a.dat": []}
        for i in range(12):
            ms = W.NOON + i * 1000
            w.phins += [R.ph_time(ms), R.ph_head("%.1f" % rng.randrange(360)), R.ph_att(1.0, 2.0), R.ph_dvl("%.2f" % rng.random(), .1, .2, ms),
                        R.ph_alt(1500, 0, "%.1f" % (5 + i)), R.ph_dep("%.1f" % (20 + rng.randrange(9)), ms)]
        for i in range(4):
            w.gaps["a.dat"] += W.fix(W.NOON + 1200 + 1500 * i, W.Sensor(), "20.0")
        w.images = [R.acfr_name(W.NOON + 700 + 1300 * i, c) for i in range(8) for c in ("LC", "RC")]
        w.write()
        if self.broken:
            (w.raw / "mission.yaml").write_text(BROKEN)

    def write_conf(self):
        self.w.conf.mkdir(parents=True, exist_ok=True)
        (self.w.conf / "auv_nav.yaml").write_text(yaml.safe_dump(
            D.auv_nav_dict(usbl_filter=self.c % 2 == 0, csv_flags={("dr", "auv_dvl"): self.c % 3 != 2}), sort_keys=False))


def ident(root, path, base):
    txt = path.read_bytes().replace(str(root).encode(), b"ROOT")
    return str(path.relative_to(base)) + ":" + hashlib.sha1(txt).hexdigest()[:10]


def obs_nav(dv):
    p = dv.w.proc / "nav/nav_standard.json"
    return [ident(dv.root, p, dv.w.proc)] if p.exists() else []


def span_of(dv, folder):
    n = folder.name
    if "20210101_000000" in n:
        return "none"
    return "part" if "120002" in n.split("_")[3] else "full"


def obs_ren(dv):
    res, folders = {w: [] for w in SPANS}, []
    for f in sorted(dv.w.proc.glob("json_renav_*")):
        s = span_of(dv, f)
        folders.append(s)
        for p in sorted(f.rglob("*")):
            if p.is_file() and p.suffix in (".csv", ".json", ".txt") and "log" not in p.parts:
                res[s].append(ident(dv.root, p, f))
    return res, folders


class Refs:
    """results of first runs on fresh copies of the inputs"""
    def __init__(self, work):
        self.work, self.navs, self.rens, self.n = work, {}, {}, 0

    def fresh(self, d, v, c):
        self.n += 1
        root = self.work / ("ref%d" % self.n)
        dv = Dive(root, d)
        dv.v, dv.c = v, c
        shutil.rmtree(dv.w.raw)
        dv.write()
        dv.write_conf()
        return dv

    def nav(self, d, v):
        from auv_nav.parse import parse
        if (d, v) not in self.navs:
            dv = self.fresh(d, v, 1)
            lib.nav_parse([dv.w.raw])
            p = dv.w.proc / "nav/nav_standard.json"
            self.navs[d, v] = (obs_nav(dv), p.read_text().replace(str(dv.root), "ROOT") if p.exists() else "[]")
            shutil.rmtree(dv.root)
        return self.navs[d, v]

    def ren(self, d, nv, v, c, w):
        from auv_nav.process import process
        k = (d, nv, v, c, w)
        if k not in self.rens:
            dv = self.fresh(d, v, c)
            p = dv.w.proc / "nav/nav_standard.json"
            p.parent.mkdir(parents=True)
            p.write_text(self.nav(d, nv)[1].replace("ROOT", str(dv.root)))
            lib.nav_process(dv.w.raw, False, *SPANS[w])
            self.rens[k] = obs_ren(dv)[0][w]
            shutil.rmtree(dv.root)
        return self.rens[k]


def whole(root, dvs):
    """digest of everything that is neither below a dive's processed tree nor its configuration"""
    return tree_hash(root)


def replay(ctx, hist, refs, judge, evs, logs, rng):
    from auv_nav.parse import parse
    from auv_nav.process import process
    root = ctx.work / ("h%d" % rng.randrange(1 << 40))
    cwd = root / "cwd"
    cwd.mkdir(parents=True)
    dvs = {d: Dive(root / "data", d) for d in NAMES}
    evs.append(dict(op="start"))
    logs.append(None)
    if judge == "N04" and rng.random() < .3:
        shutil.rmtree(dvs[1].w.conf)          # the default configuration has to be created
    for c in hist:
        op = c[0]
        if op in ("change", "config", "break", "lose"):
            dv = dvs[c[1]]
            if op == "change":
                dv.v += 1
                shutil.rmtree(dv.w.raw)
                dv.write()
            elif op == "config":
                dv.c += 1
                dv.write_conf()
            elif op == "lose":       # a part of the parse results gets lost; what remains is kept by later runs
                for p in rng.sample(PARTS, rng.choice([1, 2])):
                    (dv.w.proc / "nav" / p).unlink(missing_ok=True)
            else:
                dv.broken = not dv.broken
                shutil.rmtree(dv.w.raw)
                dv.write()
            evs.append(dict(op=op, d=c[1]))
            logs.append(None)
            continue
        before = tree_hash(root)
        old = os.getcwd()
        os.chdir(cwd)
        try:
            if op == "parse":
                ds = [1, 2] if c[1] == 12 else [c[1]]
                if c[1] == 12 and rng.random() < .5:
                    ds = [2, 1]
                args = [str(dvs[d].w.raw) for d in ds]
                if rng.random() < .2:
                    args = [a + "/" for a in args]
                st, val, con = lib.nav_parse(args, bool(c[2]), bool(c[3]) if len(c) > 3 else False)
            else:
                ds = [c[1]]
                dv = dvs[c[1]]
                p = dv.w.raw if rng.random() < .6 or not dv.w.proc.exists() else dv.w.proc
                st, val, con = lib.nav_process(p, bool(c[2]), *SPANS[c[3]])
        finally:
            os.chdir(old)
        after = tree_hash(root)
        ev = dict(op=op, judge=judge, dives=ds, force=bool(c[2]), win=c[3] if op == "process" else "", status=st)
        raws = [str(dvs[d].w.raw.relative_to(root)) for d in dvs]
        confs = [str(dvs[d].w.conf.relative_to(root)) for d in dvs]
        allowed = [str(x.relative_to(root)) for d in ds for x in (dvs[d].w.proc, dvs[d].w.conf)]
        if op == "parse" and len(c) > 3 and c[3]:
            allowed.append(str((dvs[1].w.proc.parent / "20200101010000_20200102020000_merged").relative_to(root)))
        under = lambda p, bs: any(p == b or p.startswith(b + "/") for b in bs)
        ev["rawsame"] = {p: h for p, h in before.items() if under(p, raws)} == {p: h for p, h in after.items() if under(p, raws)}
        ev["confsame"] = all(after.get(p) == h for p, h in before.items() if under(p, confs))
        parents = {str(q) for a in allowed for q in Path(a).parents}
        ev["elsewhere"] = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and not under(p, allowed)
                           and not (p in parents and after.get(p) == "dir") and not under(p, raws)][:5]
        ev["refnav"], ev["refren"] = {}, []
        ev["refnav"] = [[], []]
        if judge == "N03":
            if op == "parse":
                for d in ds:
                    ev["refnav"][d - 1] = refs.nav(d, dvs[d].v)[0]
                    if obs_nav(dvs[d]) == ev["refnav"][d - 1]:
                        dvs[d].navver = dvs[d].v
            elif dvs[c[1]].navver:
                dv = dvs[c[1]]
                ev["refren"] = refs.ren(c[1], dv.navver, dv.v, dv.c, c[3])
        obs, folders = [], []
        for d in (1, 2):
            r, f = obs_ren(dvs[d])
            obs.append(dict(nav=obs_nav(dvs[d]), ren=r))
            folders.append(f)
        ev.update(obs=obs, folders=folders)
        evs.append(ev)
        logs.append(dict(history=hist, command=c, status=st, note=(str(val)[-700:] if st != "ok" else ""), elsewhere=ev["elsewhere"]))
    shutil.rmtree(root, ignore_errors=True)


def rand_hist(rng, n):
    h = []
    for _ in range(n):
        d, r = rng.choice([1, 1, 2]), rng.random()
        if r < .34:
            h.append(["parse", rng.choice([d, d, 12]), int(rng.random() < .4), int(rng.random() < .3)])
        elif r < .76:
            h.append(["process", d, int(rng.random() < .4), rng.choice(["full", "part", "part", "none"])])
        elif r < .86:
            h.append(["change", d])
        elif r < .91:
            h.append(["config", d])
        elif r < .95:
            h.append(["lose", d])
        else:
            h.append(["break", d])
    return h


def run(ctx, judge):
    rng = ctx.rng
    tlc_model(ctx, "Workflow", "SPECIFICATION Spec\nCONSTANTS Dives = {d1, d2} Spans = {w1, w2} MaxVer = %d MaxCmds = %d\n"
              "INVARIANT NoResultsWithoutParse\nPROPERTIES Protected Fresh InputsKept\nCHECK_DEADLOCK FALSE\n" % ctx.n((2, 5), (2, 7)))
    hists = tlc_dump(ctx, "GenWorkflow", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Len3 = 3\n")
    ctx.notes["histories_enumerated"] = len(hists)
    live = [h for h in hists if h[0][0] in ("parse", "break") and h[2][0] in ("parse", "process") and
            any(c[0] == "parse" for c in h)]
    rng.shuffle(live)
    todo = [h for h in live[:ctx.n(14, 300)]] + [rand_hist(rng, rng.randrange(6, 11)) for _ in range(ctx.n(13, 150))]
    # every command after a completed parse, with and without force
    todo += [[["parse", 12, 0], ["process", 1, 0, "full"], ["process", 1, 0, "part"], ["change", 1], ["parse", 1, 0], ["process", 1, 0, "part"],
              ["parse", 1, 1], ["process", 1, 1, "part"], ["config", 1], ["process", 1, 1, "full"], ["process", 2, 0, "none"], ["process", 2, 0, "none"],
              ["process", 2, 1, "part"]],
             [["parse", 12, 0], ["change", 1], ["lose", 1], ["lose", 1], ["parse", 1, 0], ["change", 2], ["parse", 12, 0, 1], ["parse", 12, 1, 1], ["change", 2], ["parse", 12, 0, 1]]]
    refs, evs, logs = Refs(ctx.work), [], []
    for h in todo:
        replay(ctx, h, refs, judge, evs, logs, rng)
    ctx.sample(todo[0])
    ctx.sample(todo[-1])
    bad = tlc_validate(ctx, "TraceWorkflow", evs, chunk=10 ** 9)
    ctx.cov["traces_validated_against_impl"] += len(todo)
    ctx.notes["commands_replayed"] = sum(1 for e in evs if e["op"] in ("parse", "process"))
    for i, why in bad:
        ctx.violation(why, logs[i])


CHECKS = {"N03": lambda c: run(c, "N03"), "N04": lambda c: run(c, "N04")}
