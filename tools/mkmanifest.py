#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan, families, runner
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in plan.PLAN:
        na.append({"property": i, "reason": plan.NA.get(i, "check under construction")})
        continue
    P = plan.PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "TLA+ specification model-checked with TLC; TLC judges traces of the real code driven through behaviours of the specification",
                   "level": P["level"], "level_note": P.get("note", plan.NOTE)})
json.dump({"version": 1, "setup_cmd": "python3 harness/build.py", "checks": checks, "not_applicable": na,
           "notes": "python3 check.py <ID> [--tier quick|thorough]; python3 check.py --replay FILE plays a reported violation again. No hooks in /repo are needed: the driver in harness/ compiles /repo's sources as they are and takes their place at the sockets, the clock and an in-process transport."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
