"""O02: the three trees of a dataset."""
import os, shutil
from pathlib import Path
from lib import run_code, tlc_model, tlc_dump, tlc_validate, tree_hash

NAMES = '{"raw", "processed", "configuration", "2020", "raw_old", "x.processed"}'


def one(ctx, rng, base, comps):
    import oplab
    from oplab import folder_structure as fs
    get = dict(raw=oplab.get_raw_folder, processed=oplab.get_processed_folder, configuration=oplab.get_config_folder)
    tree = rng.choice(sorted(get))
    mine = [c for c in comps if c in get]
    root = base / "r"
    root.mkdir(parents=True)
    given = list(comps)
    if rng.random() < .3:
        i = rng.randrange(len(given) + 1)
        given[i:i] = rng.choice([["."], ["elsewhere", ".."]])
    p = root.joinpath(*comps)
    kind = rng.choice(["missing", "folder", "file"])
    if kind == "folder":
        p.mkdir(parents=True)
    elif kind == "file":
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("x")
    if rng.random() < .4 and mine:      # the other tree may be there already
        root.joinpath(*[tree if c in get else c for c in comps]).parent.mkdir(parents=True, exist_ok=True)
    arg = os.path.join(str(root), *given)
    here = os.getcwd()
    if rng.random() < .3:
        os.chdir(root)
        arg = os.path.join(*given)
    arg = arg if rng.random() < .5 else Path(arg)
    before = tree_hash(root)

    def run():
        a = get[tree](arg)
        b = get[mine[0]](a) if mine else a
        q = [a]
        if tree == "raw":
            q = fs.get_raw_folders([arg]) if rng.random() < .5 else [fs.get_raw_folders(arg)]
        if tree == "processed":
            q = fs.get_processed_folders([arg]) if rng.random() < .5 else [fs.get_processed_folders(arg)]
        return a, b, q[0]
    try:
        st, val, con = run_code(run)
    finally:
        os.chdir(here)
    after = tree_hash(root)
    rel = lambda x: list(Path(x).relative_to(root.resolve()).parts) if Path(x).is_relative_to(root.resolve()) else ["?", str(x)]
    ev = dict(path=given, tree=tree, status=st, got=[], back=[], listed=[], created=sorted(set(after) - set(before)), kind=kind)
    if st == "ok":
        ev.update(got=rel(val[0]), back=rel(val[1]), listed=rel(val[2]))
    shutil.rmtree(root)
    return ev


def o02(ctx):
    rng = ctx.rng
    n = ctx.n(4, 6)
    tlc_model(ctx, "Paths", "SPECIFICATION Spec\nCONSTANTS Names = %s MaxLen = %d\nINVARIANTS OneChange Back StaysInside\nCHECK_DEADLOCK FALSE\n" % (NAMES, n))
    paths = tlc_dump(ctx, "GenPaths", "SPECIFICATION GSpec\nCONSTANTS Names = %s MaxLen = %d\nCHECK_DEADLOCK FALSE\n" % (NAMES, ctx.n(4, 5)))
    rng.shuffle(paths)
    base = ctx.work.resolve() / "p"
    if {"raw", "processed", "configuration"} & set(base.parts):
        raise RuntimeError("scratch folder inside a dataset")
    evs = [one(ctx, rng, base, p) for p in paths[:ctx.n(700, 10 ** 6)]]
    ctx.sample(evs[0])
    bad = tlc_validate(ctx, "TracePaths", evs)
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for i, why in bad:
        ctx.violation(why, evs[i])
    ctx.assumptions += ["paths with one component named raw, processed or configuration"]


CHECKS = {"O02": o02}
