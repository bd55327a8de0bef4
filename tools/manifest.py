#!/usr/bin/env python3
"""regenerate MANIFEST.json from props.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/props.json"))
checks, na = [], []
for k, p in P.items():
    if p.get("not_applicable"):
        na.append({"property": k, "reason": p["not_applicable"]})
        continue
    c = {"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
         "technique": p.get("technique") or ("contract-based deductive verification with Verus of functions extracted from /repo on every run; concrete replay and search on the real crate"
                      if p["units"] else "bounded concrete checking of the real crate (no contract unit yet)"),
         "level": p["level"], "level_note": p["note"] or "bounded: concrete cases only"}
    if p.get("theorems"):
        c["theorems"] = p["theorems"]
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts are kept in /verif/contracts and woven into functions extracted from /repo/src on every run."},
          open(V + "/MANIFEST.json", "w"), indent=1)
