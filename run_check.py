#!/usr/bin/env python3
"""run_check.py <PROPERTY> [--tier quick|thorough]   -- decide one property on /repo's working tree."""
import argparse, importlib, json, os, shutil, sys, time, traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
if sys.executable != PY and Path(PY).exists() and not os.environ.get("VERIF_INNER"):
    env = dict(os.environ, VERIF_INNER="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="4", TZ="UTC")
    os.execve(PY, [PY, str(HERE / "run_check.py")] + sys.argv[1:], env)

sys.path.insert(0, str(HERE / "harness"))
sys.path.insert(0, str(HERE / "checks"))
import lib  # noqa: E402

INDEX = json.loads((HERE / "checks" / "index.json").read_text())   # property -> module


def known_findings(prop):
    res = []
    f = HERE / "known_findings.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        line = line.strip()
        if line.startswith("finding: "):
            d = dict(p=line.split("property=")[1].split()[0], key=line.split("key=")[1].split()[0],
                     text=line.split("what=")[1])
            if d["p"] == prop:
                res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    ctx = lib.Ctx(a.prop, a.tier)
    rc = 2
    try:
        mod = importlib.import_module(INDEX[a.prop])
        try:
            mod.CHECKS[a.prop](ctx)
        except lib.TlcError:
            raise
        except Exception:
            # the code under test could not be driven or its output could not be read back
            ctx.violation("unreadable", traceback.format_exc()[-3000:])
        known = known_findings(a.prop)
        fresh, seen = [], {}
        for v in ctx.violations:
            k = [f for f in known if v["kind"] == f["key"]]
            if k:
                seen[k[0]["key"]] = k[0]
            else:
                fresh.append(v)
        for f in seen.values():
            print(f"KNOWN-FINDING: property={a.prop} {f['text']}")
        ev = HERE / "evidence"
        ev.mkdir(exist_ok=True)
        cov = dict(ctx.cov)
        cov["samples"] = ctx.samples
        cov.update(ctx.notes)
        (ev / f"{a.prop}.json").write_text(json.dumps(dict(
            property=a.prop, tier=a.tier, seed=ctx.seed, level="model_checking", coverage=cov,
            assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(fresh)), indent=1))
        if fresh:
            rep = ev / f"{a.prop}.replay.json"
            rep.write_text(json.dumps(fresh[:20], indent=1, default=str))
            for v in fresh[:5]:
                print("  ", v["kind"], json.dumps(v["detail"], default=str)[:700])
            print(f"VIOLATION property={a.prop} replay={rep}")
            rc = 1
        else:
            print(f"OK property={a.prop} tier={a.tier} {json.dumps(ctx.cov)} {time.time()-ctx.t0:.1f}s")
            rc = 0
    finally:
        ctx.close()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    # worker threads of the code under test must not keep the check alive
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)
