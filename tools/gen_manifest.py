#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered in vf/props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from vf import props
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.PROPS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": props.TECH.get(i, props.TECH_DEFAULT),
                       "level": props.LEVEL.get(i, "exploration"), "level_note": props.NOTE.get(i, props.NOTE_DEFAULT)})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check built yet (work in progress)")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: all observation is done from outside (public functions, files, sanitizers). "
              "Known findings: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
