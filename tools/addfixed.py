#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT: append a fixed entry (text from the commit's subject) to known_findings.json."""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
args = sys.argv[1:]
for prop, c in zip(args[::2], args[1::2]):
    subj = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", c], text=True).strip()
    assert subj.startswith("fix: "), subj
    c = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=7", c], text=True).strip()
    if any(f.get("fixed") == c for f in d["findings"]): continue
    d["findings"].append({"property": prop, "fixed": c, "what": "fixed: property=%s %s %s" % (prop, c, subj[5:])})
json.dump(d, open(p, "w"), indent=1)
