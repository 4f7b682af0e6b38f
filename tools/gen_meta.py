#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["forall"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
claimed = [p for p in PROPS if p["id"] in CHECKS]
missing = [p["id"] for p in PROPS if p["id"] not in CHECKS and p["id"] not in NOT_APPLICABLE]
assert not missing, missing
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p["technique"], level=p.get("level", "exploration"), level_note=p["note"]) for p in claimed],
    not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
    notes="Checks compile /repo's sources in /verif/build (git-ignored) with their own ninja files. No hooks in /repo are used.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed of", len(PROPS))
