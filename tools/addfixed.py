#!/usr/bin/env python3
"""addfixed.py PROP 'commit subject' 'what failed': records a repaired defect in known_findings.json."""
import json, subprocess, sys
p, subj, what = sys.argv[1:4]
h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-F", "--grep", subj, "-1"], text=True).strip()
assert h, subj
f = "/verif/known_findings.json"
d = json.load(open(f))
l = d if isinstance(d, list) else d["findings"]
l.append({"property": p, "rule": "", "construct": "", "status": "fixed", "what": f"fixed: property={p} {h} {what}"})
json.dump(d, open(f, "w"), indent=1)
