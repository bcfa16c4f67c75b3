#!/bin/bash
# Builds the verification harness against /repo, offline, into /verif/target.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys, json
sys.argv = ["check.py"]
import check
cfg = json.load(open("checks.json"))
bins = [k.lower() for k, v in cfg.items() if v.get("bin", True)]
print("built in %.1f s" % check.build(bins))
if any(v.get("kani") for v in cfg.values()):
    res, out, s = check.kani("c03_tri3d2", 120)   # builds the Kani artefacts of every proof
    print("kani artefacts in %.1f s" % s)
P
