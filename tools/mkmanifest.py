#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks in vt/checks and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CLAIMED:
        tech, note = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd="python3 -m vt.run %s" % p, thorough_cmd="env VERIF_TIER=thorough python3 -m vt.run %s" % p,
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason=NOT.get(p, "no check has been built for it yet, see DESIGN.md")))
json.dump(dict(version=1, setup_cmd="python3 -m vt.build", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
