#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {}
exec(open(os.path.join(H, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not decided yet")})
doc = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "none", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check builds the MIR-dump driver and dumps /repo's current MIR into a scratch directory it removes; see DESIGN.md."}
json.dump(doc, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
