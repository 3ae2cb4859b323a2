#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Every check recompiles /repo's sources to LLVM IR and executes that symbolically (see DESIGN.md)."}
for i in ids:
    p = plans.PLANS.get(i)
    if p:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "technique": p.technique, "level": p.level, "level_note": p.note})
    else:
        m["not_applicable"].append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
