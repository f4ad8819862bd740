#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", "deterministic simulation with fault injection: seeded search over "
                               "schedules and faults, checked against a reference simulator in lock step"),
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an interface the library already has (virtual model callbacks, "
              "listeners, solver and system interfaces), a link-time replacement (operator new/delete, the FMI and "
              "thread runtimes) or a compiler instrumentation. /repo carries only fix: commits."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
