#!/usr/bin/env python3
"""developer helper: tools/addcheck.py ID level 'level_note' 'explanation' ; or: finding property hash text"""
import json, sys
if sys.argv[1] == "finding":
    k = json.load(open('/verif/known_findings.json'))
    l = k if isinstance(k, list) else k["findings"]
    n = max(int(x["id"][1:]) for x in l) + 1
    l.append({"id": f"F{n}", "property": sys.argv[2], "status": "fixed", "line": f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}"})
    json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
    print(n)
else:
    c = json.load(open('/verif/checks.json'))
    i, level, note, expl = sys.argv[1:5]
    e = c.setdefault(i, {})
    e.update(level=level, level_note=note, explanation=expl)
    e.setdefault("technique", "contracts on the real generic code; deductive verification by symbolic-real execution, exact normal form and SMT")
    json.dump(c, open('/verif/checks.json', 'w'), indent=1)
