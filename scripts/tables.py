#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/scripts/seed_results.json"))
rows = ["| bug | property | needs | result |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = res.get(i, {}).get(m["property"], "not run").rstrip(":,")
    also = [p for p, x in res.get(i, {}).items() if p != m["property"] and x.startswith("CAUGHT")]
    rows.append("| %s | %s | %s | %s%s |" % (i, m["property"], m["needs"].replace("|", "/"), "caught by " + m["property"] if r.startswith("CAUGHT") else r, (", also " + " ".join(also)) if also else ""))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t)
open(p, "w").write(t)
