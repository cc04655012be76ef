"""O04: every command leaves a record of what it did."""
import getpass, hashlib, importlib.metadata, re, shutil, socket, time
import lib, imgdive as I, workflow, corrflow
from lib import tlc_model, tlc_validate
MSG = re.compile(r"(?:INFO|WARN|ERROR) ▸ \x1b\[0m([^\n\r]*)")
STOP = re.compile(r"\*\*\*\* \x1b\[0mReason: ([^\n\r]*)")
LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [A-Z]+ +(.*)$")


class Ids(dict):
    def of(self, s):
        return self.setdefault(s.strip(), len(self) + 1)


def logs(proc, ids):
    res = []
    for p in sorted((proc / "log").glob("*.log")) if (proc / "log").exists() else []:
        m = re.match(r"\d{8}_\d{6}_(.*)\.log$", p.name)
        lines = [LINE.match(x) for x in p.read_text().splitlines()]
        res.append(dict(name=p.name, cmd=m.group(1) if m else "?", lines=[ids.of(x.group(1)) for x in lines if x]))
    return res


def heads(ids):
    return [ids.of("oplab_pipeline version: " + importlib.metadata.version("oplab_pipeline")), ids.of("User: " + getpass.getuser()), ids.of("Hostname: " + socket.gethostname())]


def run(evs, ids, cmd, proc, fn, config=None, free=4):
    before = logs(proc, ids)
    start = time.strftime("%Y%m%d_%H%M%S", time.localtime())
    digest = hashlib.sha1(config.read_bytes()).hexdigest() if config is not None and config.exists() else ""
    st, val, con = fn()
    new = [p for p in (proc / "log").glob("*.yaml") if p.name >= start] if (proc / "log").exists() else []
    stop = STOP.findall(con)
    evs.append(dict(cmd=cmd, status=st, shown=[ids.of(x) for x in MSG.findall(con) if x.strip()], stop=ids.of(stop[-1]) if st == "quit" and stop else 0, before=before, after=logs(proc, ids),
                    heads=heads(ids), config=digest, copies=[hashlib.sha1(p.read_bytes()).hexdigest() for p in new], free=free, note=str(val)[-300:] if st == "crash" else ""))


def o04(ctx):
    rng = ctx.rng
    tlc_model(ctx, "RunLog", "SPECIFICATION Spec\nCONSTANTS Cmds = {p, q}\nMsgs <- MsgsDef\nMaxT = 1\nMaxRun = %d\nINVARIANTS Documented Copied\nPROPERTY OnlyGrows\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4))
    evs, ids = [], Ids()
    for k in range(ctx.n(4, 40)):
        root = ctx.work / ("r%d" % k)
        dv = workflow.Dive(root / "nav", 1)
        dv.w.write()
        for _ in range(rng.randrange(3, 7)):
            force, op = rng.random() < .5, rng.choice(["parse", "process", "process", "edit"])
            if op == "edit":
                dv.c += 1
                dv.write_conf()
            elif op == "parse":
                run(evs, ids, "auv_nav_parse", dv.w.proc, lambda: lib.nav_parse([dv.w.raw], force))
            else:
                run(evs, ids, "auv_nav_process", dv.w.proc, lambda: lib.nav_process(dv.w.raw, force, *workflow.SPANS[rng.choice(["full", "part"])]), dv.w.conf / "auv_nav.yaml")
        x = corrflow.Dive(root / "img", 1, ("LC",))
        x.write()
        for _ in range(rng.randrange(2, 5)):
            force, op = rng.random() < .5, rng.choice(["parse", "process"])
            run(evs, ids, "correct_images_" + op, x.x.proc, lambda: corrflow.run_cmd(op, [x], force, ""))
        c = root / "processed/calibration/20200101_120000_rig"
        c.mkdir(parents=True)
        for op in rng.sample(["mono", "stereo", "laser"], 2):
            run(evs, ids, "auv_cal_" + op, c, lambda: lib.cli("auv_cal", op, c))
        shutil.rmtree(root, ignore_errors=True)
    for e in evs[:2]:
        ctx.sample(str(e)[:600])
    names = {v: k for k, v in ids.items()}
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in tlc_validate(ctx, "TraceRunLog", evs):
        e = evs[i]
        text = [n for a in e["after"] for n in a["lines"]]
        ctx.violation(why, dict(e, shown=[names[n] for n in e["shown"] if n not in text], stop=names.get(e["stop"], ""), before=[], after=[]))
    ctx.notes["messages"] = len(ids)
    ctx.assumptions += ["messages shown before a command opens its log (version banner, check of the paths) are not recorded"]


CHECKS = {"O04": o04}
