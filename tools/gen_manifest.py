#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from bin/plan.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from plan import PLAN
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": pl["technique"], "level": pl["level"],
                       "level_note": "Bounded: " + pl["bounds"] + " Trusted: " + "; ".join(pl.get("assumptions", []))})
    else: na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "hooks": {"guard": "none: no hooks are needed in /repo", "enable": "the checks compile /repo/src/buzz/*.c unmodified together with the harness", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "All checks enumerate executions of the real code (compiled from /repo's working tree with AddressSanitizer) and compare every one with a reference model written independently in the harness."},
          open(V + "/MANIFEST.json", "w"), indent=1)
