#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
from plan import PLAN, TECH, NOT_YET
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": PLAN[i]["level"], "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_YET.get(i, "the check for it is still being built")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the exported API of the working tree only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "KNOWN_FINDINGS lists the defects found: repaired ones (fix: commits in /repo) and the ones of the storage dependency that are probed and reported as KNOWN-FINDING."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
