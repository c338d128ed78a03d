#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single
source), for every property that has a check module.  Run by hand, outputs are
committed."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import LEVEL_NOTE, NOTES, PROPS  # noqa: E402

TECH = "runtime monitoring: randomized workloads on the real code, %s"
checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = dict(p)
        tech = q.pop("technique")
        note = q.pop("note", "")
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
        if not os.path.exists(
            os.path.join(ROOT, "checks", q["id"].lower() + ".py")
        ):
            na.append({"property": q["id"], "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": q["id"],
                "quick_cmd": "python3 check.py %s --tier quick" % q["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                "technique": TECH % tech,
                "level": "exploration",
                "level_note": LEVEL_NOTE + (" " + note if note else ""),
            }
        )
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(checks), "checks")
