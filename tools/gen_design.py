#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, the claims, the findings and the results on seeded bugs."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(os.path.join(H, "tools", "claims.py")).read())
exec(open(os.path.join(H, "tools", "design_props.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
t = "\n".join("* **%s** %s. %s" % (p["id"], p["title"], HOW[p["id"]]) for p in props if p["id"] in CLAIMS)
n = "\n".join("* **%s** %s: %s" % (p["id"], p["title"], NA.get(p["id"], "not decided yet")) for p in props if p["id"] not in CLAIMS) or "Every property has a check."
d = "\n".join("* " + l.strip()[len("fixed: "):] for l in open(os.path.join(H, "known-findings.txt")) if l.startswith("fixed:"))
rows = []
R = {}
p = os.path.join(H, "tools", "seed_results.json")
if os.path.exists(p): R = json.load(open(p))
for s in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", s, "meta.json")))
    r = R.get(s, {})
    rows.append("* `%s` (%s): %s. Caught by: %s." % (s, m["property"], m["what_it_breaks"], ", ".join(sorted(c for c, x in r.items() if x == 1)) or "none"))
x = open(os.path.join(H, "tools", "design.in.md")).read()
for k, v in (("TABLE", t), ("NA", n), ("DEFECTS", d), ("SEEDS", "\n".join(rows))): x = x.replace("@@%s@@" % k, v)
open(os.path.join(H, "DESIGN.md"), "w").write(x)
