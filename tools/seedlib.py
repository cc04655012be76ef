"""Make and verify planted bugs (used by hand; no check reads seeded/).
   usage: python3 tools/seedlib.py DEFS.py [ID...]; DEFS.py calls seed(...)."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
DEFS = []
ONLY = sys.argv[2:]


def seed(id, prop, needs, breaks, edits, demo, helpers=("dive.py", "rawlogs.py", "world.py")):
    DEFS.append((id, prop, needs, breaks, edits, demo, helpers))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


HEAD = '''import os, sys, tempfile, shutil, atexit
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
TMP = tempfile.mkdtemp(); atexit.register(shutil.rmtree, TMP, True)
import matplotlib; matplotlib.use("Agg")
'''
SHELL = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated input, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC
exec /opt/venv/bin/python "$here/demo.py"
'''


def main():
    os.makedirs("/tmp/seedwork", exist_ok=True)
    base = Path("/tmp/seedwork/base")
    shutil.rmtree("/tmp/seedwork/base", ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(base)], check=True)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for id, prop, needs, breaks, edits, demo, helpers in DEFS:
        if ONLY and id not in ONLY:
            continue
        d = V / "seeded" / id
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        rep = Path("/tmp/seedwork/" + id)
        shutil.rmtree(rep, ignore_errors=True)
        shutil.copytree(base, rep)
        for f, old, new in edits:
            p = rep / f
            t = p.read_text()
            assert t.count(old) == 1, (id, f, t.count(old))
            p.write_text(t.replace(old, new))
        rc, diff = sh("git diff", rep)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(HEAD + demo)
        (d / "demo.sh").write_text(SHELL)
        for h in helpers:
            shutil.copy(V / "harness" / h, d)
        (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1))
        a, oa = sh(["bash", str(d / "demo.sh")], base)
        b, ob = sh(["bash", str(d / "demo.sh")], rep)
        t, ot = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--disable-warnings"], rep,
                   dict(PYTHONPATH=str(rep / "src"), PYTHONHASHSEED="0"))
        tail = ot.strip().splitlines()[-1]
        c, oc = sh(["python3", str(V / "run_check.py"), prop], V, dict(VERIF_REPO=str(rep)))
        caught = c == 1 and f"VIOLATION property={prop}" in oc
        good = a == 0 and b != 0 and " failed" not in tail
        print(f"{id}: demo base={a} bug={b}; tests: {tail}; check rc={c} caught={caught} {'OK' if good else 'NOT VALID'}")
        if a != 0:
            print("  base demo:", oa[-1500:])
        if b == 0:
            print("  bug demo:", ob[-500:])
        if not caught:
            print("  check:", oc[-600:])
        else:
            print("  ", [l.split()[0] for l in oc.splitlines() if l.startswith("   ")][:5])
        shutil.rmtree(rep, ignore_errors=True)
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)


if __name__ == "__main__":
    exec(compile(Path(sys.argv[1]).read_text(), sys.argv[1], "exec"))
    main()
