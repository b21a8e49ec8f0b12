#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(f"{V}/tools/manifest_table.py").read())
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CLAIMED and os.path.exists(f"{V}/checks/{p}.py"):
        tech, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "model_checking",
                       "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "Specification and conformance check not built yet.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC) specifications in specs/, conformance drivers in ml/, checks in checks/. No hooks in /repo."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
