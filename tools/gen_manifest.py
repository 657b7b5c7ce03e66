#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
TECH = {
    "*": "exhaustive enumeration of call orders (histories) and of thread schedules up to a deviation bound, on the real code, judged by a serial reference model",
}
TECH.update(getattr(plan, "TECH", {}))
NOTE = "small programs (2-4 transactions, 1-3 operations each); bounds and counts of every family are in the evidence file; index and log library are stand-ins"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick",
                       "thorough_cmd": f"python3 tools/check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": TECH.get(i, TECH["*"]), "level": plan.LEVEL.get(i, "model_checking"),
                       "level_note": getattr(plan, "NOTE", {}).get(i, NOTE)})
    else:
        na.append({"property": i, "reason": plan.NOT_YET.get(i, "the exploration for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "none (no hooks in /repo)", "enable": "the checks compile /repo's sources unchanged against stand-in headers", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "fix: commits in /repo are listed in known-findings.txt"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
