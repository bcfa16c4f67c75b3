#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
na = json.load(open(f"{V}/not_applicable.json"))
out = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[], notes="see DESIGN.md")
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                                  evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["level_note"]))
    else:
        out["not_applicable"].append(dict(property=i, reason=na.get(i, "not built yet")))
json.dump(out, open(f"{V}/MANIFEST.json", "w"), indent=1)
