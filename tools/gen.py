#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the specification table in tools/spec.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from spec import PROPS, NOT_APPLICABLE, HOOKS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": p.get("level", "exploration"),
            "level_note": p["level_note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
