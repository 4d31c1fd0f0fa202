#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and seeded/results.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(H, "bin", "seed_results.json")
if os.path.exists(p):
    res = json.load(open(p))
rows = ["| id | needs | caught by | first missed |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    i = d.split("/")[-2]
    m = json.load(open(d))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), r.get("caught", m["property"] + " quick"), r.get("was", "")))
t = open(os.path.join(H, "DESIGN.md")).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "@@SEEDS@@" in t:
    t = t.replace("@@SEEDS@@", new)
else:
    t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(os.path.join(H, "DESIGN.md"), "w").write(t)
