#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py; a property is claimed when props/<ID>/ exists."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from table import P
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in P:
    if os.path.isdir(ROOT + "/props/" + p["id"]):
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"] + " --tier quick",
                       "thorough_cmd": "python3 run.py " + p["id"] + " --tier thorough",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "the check is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "Each check rebuilds its harness from /repo's headers and runs it; see DESIGN.md."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
