#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, HOOKS  # noqa: E402
from checks import CHECKS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []),
                        "hook_needed": p.get("hook")},
        }, ensure_ascii=False) + "\n")

checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
json.dump({"version": 1,
           "setup_cmd": "python3 check.py --setup",
           "hooks": HOOKS, "checks": checks,
           "not_applicable": NOT_APPLICABLE,
           "notes": "Every check rebuilds its harnesses from /repo's working tree and explores its bounded space completely; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
missing = [p["id"] for p in PROPS if p["id"] not in CHECKS]
print("%d properties, %d checks, unclaimed: %s" % (len(PROPS), len(checks), missing))
