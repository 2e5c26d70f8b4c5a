#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry

props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        m = registry.META[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m[0], "level": m[1], "level_note": m[2]})
    elif i in registry.NOT_APPLICABLE:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE[i]})
    else:
        na.append({"property": i, "reason": "no check yet"})
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
       "notes": "TLA+ specifications in spec/, drivers in harness/, stand-ins for libraries that are not installed in shim/.  See DESIGN.md."}
if registry.HOOKS:
    out["hooks"] = registry.HOOKS
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
