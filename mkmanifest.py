#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json
import os

from checks import CHECKS, NOT_APPLICABLE

VERIF = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert all(c in ids for c in CHECKS)
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": "python3 run.py check " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check %s thorough" % i,
            "technique": CHECKS[i]["technique"],
            "level": CHECKS[i].get("level", "exploration"),
            "level_note": CHECKS[i]["rule"],
            "evidence_file": "evidence/%s.json" % i,
        }
        for i in ids if i in CHECKS
    ],
    "not_applicable": [
        {"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in CHECKS
    ],
    "notes": "All checks execute the library rebuilt from /repo's working tree under monitors and sanitizers; no hooks in /repo are needed (the middle-end is intercepted at link time). See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
