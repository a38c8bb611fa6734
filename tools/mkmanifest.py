#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the suites that exist, and the notes below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import suites
TECH = "TLA+ specification executed by TLC: generated scenarios replayed in the real code, recorded traces validated by TLC"
NOTE = ("Bounded: holds on every explored model, history and input (random ones by VERIF_SEED). Trusts TLC, the real "
        "arithmetic override java/Reals.java, the recorder in harness/, and tolerances of 1e-6 (ties within 1e-7 accept either side).")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH,
                       "level": suites.LEVEL.get(i, "model_checking"), "level_note": suites.NOTES.get(i, "") + NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Language TLA+ (TLC). No hooks in /repo; only fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
