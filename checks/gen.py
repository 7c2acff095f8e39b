#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "stateless model checking of the real code: exhaustive enumeration of schedules/inputs/environment answers within bounds"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in list(PROPS.items()) + list(getattr(props, "UNCLAIMED", {}).items()):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        for k in ("state", "observe_at", "hook_needed"):
            if k in p:
                a[k] = p[k]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for pid, p in PROPS.items():
    checks.append({"property": pid, "quick_cmd": "python3 checks/run.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 checks/run.py %s --tier thorough" % pid,
                   "technique": p.get("technique", TECH), "level": p.get("level", "model_checking"),
                   "level_note": p.get("note", "Every execution within the stated bounds (preemptions, deviations, operation depth) of the listed drivers is explored on the real compiled code; "
                                                "trusts the engine's scheduler, its model of OS primitives and the drivers' alphabets; nothing is claimed beyond the bounds reported in the evidence.")})
m = {"version": 1, "setup_cmd": "python3 checks/mcbuild.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in getattr(props, "UNCLAIMED", {}).items()],
     "notes": "No hooks in /repo: the repository's sources are compiled unmodified with compiler instrumentation; OS calls are interposed at link time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
