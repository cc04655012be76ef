"""Shared machinery: scratch dives, quiet console, TLC runner, verdicts, evidence."""
import contextlib, io, json, os, random, shutil, subprocess, sys, tempfile, time, hashlib, re, signal, threading
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if str(SRC) not in sys.path:
    sys.path.insert(0, str(SRC))

SEED = int(os.environ.get("VERIF_SEED", "1"))
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.seed = SEED
        self.rng = random.Random(f"{prop}:{SEED}")
        self.work = Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
        self.violations = []          # list of dict(kind, detail)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        events_validated=0)
        self.samples = []
        self.assumptions = []
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, default=str)[:600])

    def violation(self, kind, detail):
        self.violations.append(dict(kind=kind, detail=detail))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


# ----------------------------------------------------------------- quiet console
@contextlib.contextmanager
def quiet():
    """Silence everything the code under test prints."""
    so, se = sys.stdout, sys.stderr
    buf = io.StringIO()
    sys.stdout, sys.stderr = buf, buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = so, se


class Quit(Exception):
    """The code under test decided to stop with an error message."""


class Hang(BaseException):
    pass


_limit = [200]


@contextlib.contextmanager
def guard():
    """A call that never returns is interrupted (and later ones sooner)"""
    if threading.current_thread() is not threading.main_thread() or signal.getitimer(signal.ITIMER_REAL)[0]:
        yield
        return

    def stop(*_):
        _limit[0] = 25
        raise Hang("no answer")
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, _limit[0])
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_code(fn, *a, **k):
    """Run fn quietly. Returns ('ok', value) | ('quit', code) | ('crash', exc)."""
    with quiet() as buf:
        try:
            with guard():
                return "ok", fn(*a, **k), buf.getvalue()
        except SystemExit as e:
            return "quit", e.code, buf.getvalue()
        except (Exception, Hang) as e:  # noqa
            import traceback
            return "crash", repr(e) + "\n" + traceback.format_exc()[-1500:], buf.getvalue()


TOOLS = dict(auv_nav="auv_nav.auv_nav", correct_images="correct_images.correct_images", auv_cal="auv_cal.auv_cal")


def cli(tool, *argv):
    """Run the command line of a tool, as from a shell."""
    import importlib, logging
    main = importlib.import_module(TOOLS[tool]).main
    console = importlib.import_module("oplab.console")

    def go():
        old, sys.argv = sys.argv, [tool] + [str(a) for a in argv]
        try:
            main()
        finally:
            sys.argv = old
            root = logging.getLogger()
            for h in list(root.handlers):          # what the end of the process would do
                if isinstance(h, logging.FileHandler):
                    root.removeHandler(h)
                    h.close()
            console.logger, console.verbose = None, False
    st, val, con = run_code(go)
    return ("crash", "command line refused: " + con[-800:], con) if st == "quit" and val == 2 else (st, val, con)


def nav_parse(paths, force=False, merge=False):
    return cli("auv_nav", "parse", *paths, *(["-F"] if force else []), *(["--merge"] if merge else []))


def nav_process(path, force=False, start="", end=""):
    return cli("auv_nav", "process", path, *(["-F"] if force else []), *(["-s", start] if start else []), *(["-e", end] if end else []))


# ----------------------------------------------------------------- TLC
_STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def _java(args, cwd, env=None, timeout=800, workers=4, heap="4g"):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["tlc"] + args
    e.setdefault("JDK_JAVA_OPTIONS", "-Xss256m")      # long traces recurse deeply
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


class TlcError(Exception):
    pass


def brief(out):
    """TLC's output without the parser's chatter"""
    keep = [l for l in out.splitlines() if l.strip() and not l.startswith(("Parsing file", "Semantic processing", "TLC2", "Running breadth"))]
    return "\n".join(keep)[-1800:]


def stage(ctx, name):
    d = ctx.work / f"tlc_{name}_{len(list(ctx.work.glob('tlc_*')))}"
    d.mkdir(parents=True)
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, d)
    return d


def tlc_model(ctx, module, cfg, workers="auto", extra=(), timeout=800):
    """Exhaustively check a model; a violated invariant there is a specification error."""
    d = stage(ctx, module)
    (d / f"{module}.cfg").write_text(cfg)
    rc, out = _java(["-workers", str(workers), "-config", f"{module}.cfg", *extra, f"{module}.tla"],
                    d, timeout=timeout)
    m = _STAT.findall(out)
    if m:
        ctx.cov["transitions"] += int(m[-1][0])
        ctx.cov["states"] += int(m[-1][1])
    if rc != 0:
        raise TlcError(f"model {module} rc={rc}\n{brief(out)}")
    shutil.rmtree(d, ignore_errors=True)
    return out


def tlc_dump(ctx, module, cfg, outname="out.json", timeout=800, env=None):
    """Run a generator module; it serialises behaviours/inputs to OUT (json)."""
    d = stage(ctx, module)
    (d / f"{module}.cfg").write_text(cfg)
    out_file = d / outname
    e = {"OUT": str(out_file)}
    e.update(env or {})
    rc, out = _java(["-workers", "1", "-config", f"{module}.cfg", f"{module}.tla"], d, env=e, timeout=timeout)
    m = _STAT.findall(out)
    if m:
        ctx.cov["transitions"] += int(m[-1][0])
        ctx.cov["states"] += int(m[-1][1])
    if rc != 0 or not out_file.exists():
        raise TlcError(f"generator {module} rc={rc}\n{brief(out)}")
    res = json.loads(out_file.read_text())
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_validate(ctx, module, events, consts="", chunk=4000, timeout=800, keep=None):
    """Check recorded events against Trace module.  The module must define
       Verdict output: file OUT with {"n": accepted count, "bad": [{"i":..,"why":..},..]}.
       Returns list of (index, why)."""
    bad = []
    jobs = []
    for off in range(0, len(events), chunk):
        part = events[off:off + chunk]
        d = stage(ctx, module)
        tf = d / "trace.ndjson"
        with tf.open("w") as f:
            for ev in part:
                f.write(json.dumps(ev) + "\n")
        (d / f"{module}.cfg").write_text("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Done\n" + consts)
        out_file = d / "verdict.json"
        rc, out = _java(["-workers", "1", "-config", f"{module}.cfg", f"{module}.tla"], d,
                        env={"TRACE": str(tf), "OUT": str(out_file)}, timeout=timeout)
        m = _STAT.findall(out)
        if m:
            ctx.cov["transitions"] += int(m[-1][0])
            ctx.cov["states"] += int(m[-1][1])
        if not out_file.exists() and m and "Finished computing initial states" in out and not re.search(r"OutOfMemory|StackOverflow|heap space", out):
            # the specification has no value for this event: a number outside the range of the trace, a field of the wrong type
            bad.append((off + min(int(m[-1][1]), len(part)) - 1, "outside the domain of the specification"))
            ctx.notes["tlc_error"] = brief(out)[-600:]
            shutil.rmtree(d, ignore_errors=True)
            continue
        if not out_file.exists():
            raise TlcError(f"trace module {module} gave no verdict rc={rc}\n{brief(out)}")
        v = json.loads(out_file.read_text())
        if v["n"] != len(part):
            raise TlcError(f"trace module {module} stopped at {v['n']} of {len(part)}\n{brief(out)}")
        for b in v["bad"]:
            bad.append((off + b["i"] - 1, b["why"]))
        ctx.cov["events_validated"] += len(part)
        shutil.rmtree(d, ignore_errors=True)
    return bad


# ----------------------------------------------------------------- misc
def tree_hash(root):
    """path -> sha of every file (and dirs) below root."""
    res = {}
    root = Path(root)
    if not root.exists():
        return res
    for p in sorted(root.rglob("*")):
        rel = str(p.relative_to(root))
        if p.is_dir():
            res[rel] = "dir"
        else:
            res[rel] = hashlib.sha1(p.read_bytes()).hexdigest()
    return res
