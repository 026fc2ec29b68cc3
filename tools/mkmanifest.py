#!/usr/bin/env python3
"""writes MANIFEST.json from checks/table.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
import table
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in table.CHECKS:
        cmd = "python3 check.py %s" % i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "evidence_file": "evidence/%s.json" % i, "technique": table.TECH.get(i, table.TECH["*"]),
                       "level": table.CHECKS[i][2], "level_note": table.NOTE.get(i, table.EXPLAIN.get(i, ""))})
    else:
        na.append({"property": i, "reason": table.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 engine/mir.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of the MIR of /repo's current tree; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
