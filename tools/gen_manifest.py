#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a checks/<id>.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
NA = TECH["not_applicable"]
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line); i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        t = TECH["claims"][i]
        checks.append({"property": i, "quick_cmd": "python3 %s" % f, "thorough_cmd": "VERIF_TIER=thorough python3 %s" % f,
                       "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet: no rule decides this property at present")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile sa/repo.py sa/val.py sa/interp.py sa/check.py sa/model.py sa/pipe.py sa/files.py sa/alias.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
