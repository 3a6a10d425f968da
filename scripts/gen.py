#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "scripts")); sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
from plan import PLAN
keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in keys}) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: monitors observe the public interface and sanitizer runtimes only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in PROPS:
    if p["id"] in PLAN:
        c = {"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
             "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
             "technique": p["technique"], "level": p["level"],
             "level_note": p["note"] or "held on the seeded executions counted in the evidence file; says nothing about executions not run"}
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["technique"], p["id"]
