#!/usr/bin/env python3
"""Regenerates MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in PROPS:
        r = PROPS[i]
        b = r["bounds"]["quick"] if isinstance(r["bounds"], dict) else r["bounds"]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": r.get("technique", "bounded exhaustive exploration of the real code against a reference model"),
                       "level": "model_checking",
                       "level_note": "Exhaustive within: " + b + ". Assumes: " + "; ".join(r.get("assumptions", []))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); import registry\"", "checks": checks, "not_applicable": na,
     "notes": "run.py compiles the harnesses in harness/ from /repo's working tree into build/ (ignored by git), explores every case of the bounded space, re-executes each failing case alone before reporting it, and writes evidence/<id>.json. python3 run.py --replay FILE re-executes a counterexample."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
