#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from plan.CLAIMS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in plan.CLAIMS:
        note = plan.CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; its behaviours replayed into the real code and the recorded traces validated by TLC",
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": plan.NOT_CLAIMED.get(i, "check still being built")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/, driver sources in harness/ (compiled into the module with go build -overlay; no hooks in /repo), orchestration in bin/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
