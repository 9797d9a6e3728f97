#!/usr/bin/env python3
"""Generates MANIFEST.json from checks.REGISTRY, checks/notes.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import REGISTRY
from checks.notes import NOTES, NA, TECH
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in REGISTRY:
        mod, fn, level = REGISTRY[p]
        checks.append({"property": p,
                       "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
                       "technique": TECH.get(p) or TECH[mod], "level": level,
                       "level_note": NOTES.get(p) or NOTES[mod]})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in REGISTRY]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC), drivers in drivers/, check logic in vlib/ and checks/. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "checks,", len(na), "not applicable")
