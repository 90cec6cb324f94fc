#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, NOT

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
na = dict(NOT)
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(HERE, "rules", p["id"] + ".py")), p["id"]
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": r} for k, r in NOT],
     "notes": "Static analysis of the compiler's MIR of /repo (driver/), interpreted by lib/absint.py and queried by rules/*.py; see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(NOT), "not applicable")
