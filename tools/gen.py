#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after editing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "ripsrc/history3/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking", state=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, level=level, state=state or [], claimed=claimed, na=na))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                 evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["claimed"]],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["claimed"]],
    notes="No hooks in /repo. Everything is built from /repo's working tree by build.sh; see DESIGN.md. A reported violation is replayed with ./replay.sh FILE.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
