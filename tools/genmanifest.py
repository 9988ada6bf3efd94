#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "none", "enable": "No hooks: the checks compile /repo's sources unchanged and observe at the public "
               "boundary and at wrapped system calls.", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 lib/run.py %s" % i,
                            "thorough_cmd": "python3 lib/run.py %s thorough" % i,
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
