#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if p["check"]:
        checks.append(dict(property=p["id"], quick_cmd="python3 engine/check.py %s" % p["id"], thorough_cmd="python3 engine/check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "No check has been built for this property yet."))
m = dict(version=1, setup_cmd="python3 engine/facts.py", checks=checks, not_applicable=na,
         notes="All checks are static analyses of /repo's current sources; see DESIGN.md. known-findings.txt lists genuine defects that are not repaired.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
