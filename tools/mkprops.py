#!/usr/bin/env python3
"""Single table -> /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, check=None, note="", state=(), reason=""):
    P.append(dict(
        d=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                         observe_at=[observe], hook_needed=None)),
        check=check, note=note, reason=reason))


TECH = "model-based verification: explicit TLA+ specification checked with TLC; recorded executions of the real code validated by TLC against the specification's transition relation"

exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["d"]) + "\n")
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=p["d"]["id"], quick_cmd="./run %s quick" % p["check"], thorough_cmd="./run %s thorough" % p["check"],
                 technique=TECH, level="model_checking", level_note=p["note"]) for p in P if p["check"]],
    not_applicable=[dict(property=p["d"]["id"], reason=p["reason"] or "check under construction") for p in P if not p["check"]],
    hooks=dict(guard="none", enable="no hooks: every projection is read through the public API", source_commits=[]),
    notes="Specifications: tla/*.tla (TLA+, TLC). Drivers: checks/*.py. See DESIGN.md.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
