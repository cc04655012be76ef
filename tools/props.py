#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json
from pathlib import Path
HERE = Path(__file__).resolve().parents[1]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, spec, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                                   observe_at=observe, hook_needed=None),
                  _spec=spec, _note=note))


exec((HERE / "tools" / "props_data.py").read_text())


def main():
    idx = json.loads((HERE / "checks" / "index.json").read_text())
    with (HERE / "properties.jsonl").open("w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    fixes = [l for l in (HERE / "known_findings.txt").read_text().splitlines() if l.startswith("fixed:")] \
        if (HERE / "known_findings.txt").exists() else []
    man = dict(version=1, setup_cmd="bash setup.sh",
               hooks=dict(guard="none", enable="no hooks: the checks drive the public entry points of the unmodified code",
                          source_commits=[]),
               checks=[dict(property=p["id"], quick_cmd=f"python3 run_check.py {p['id']} --tier quick",
                            thorough_cmd=f"python3 run_check.py {p['id']} --tier thorough",
                            technique="TLA+ specification checked with TLC, bound to the code by replay and trace validation: " + p["_spec"],
                            level="model_checking", level_note=p["_note"]) for p in P if p["id"] in idx],
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()] +
               [dict(property=p["id"], reason="check not built yet") for p in P
                if p["id"] not in idx and p["id"] not in NOT_APPLICABLE],
               notes="See DESIGN.md. Genuine defects repaired in /repo are listed in known_findings.txt.")
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    import jsonschema
    sch = json.loads(Path("/root/.vp/PROPERTIES.schema.json").read_text())
    for p in P:
        jsonschema.validate({k: v for k, v in p.items() if not k.startswith("_")}, sch)
    jsonschema.validate(man, json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text()))
    print(len(P), "properties,", len(man["checks"]), "claimed")


if __name__ == "__main__":
    main()
