#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties which have a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = suites.PROPS.get(i)
    if not p:
        na.append({"property": i, "reason": suites.NOT_APPLICABLE.get(i, "no check yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
                   "technique": p.get("technique", "TLA+ specification, exhaustive TLC model checking of the design and TLC trace validation of runs of the real code"),
                   "level": "model_checking", "level_note": p.get("note", suites.NOTE)})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
if suites.HOOKS:
    m["hooks"] = suites.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
