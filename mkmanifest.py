#!/usr/bin/env python3
"""Writes MANIFEST.json from lints.PLAN and cfg/not_applicable.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, V)
import lints
na = json.load(open(V + "/cfg/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current sources to LLVM bitcode and analyses that bitcode; nothing of /repo is executed. See DESIGN.md."}
for p in props:
    if p in lints.PLAN:
        s = lints.PLAN[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                            "technique": s["technique"], "level": "other", "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": na[p]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
