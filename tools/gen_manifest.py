#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the checks present in sa/checks and the tables below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(os.path.join(V, "tools", "manifest_src.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "sa", "checks", p.lower() + ".py")):
        if p not in TECH:
            sys.exit("no technique text for " + p)
        t, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "./run.sh %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
