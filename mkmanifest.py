#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + p["technique"], "level": "exploration",
                       "level_note": p.get("level_note", "Held on the executions counted in the evidence; says nothing about shapes the generators never produce.")})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "none", "enable": "No hooks: the library is header-only and every monitored value is observable at its interface; the checks compile /repo/include as it is.", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
