#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_meta.py (kept as one source so that they stay in step)."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "tools"))
from props_meta import PROPS, CHECKS, NOT_APPLICABLE, NOTES
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = {p["id"] for p in PROPS}
assert ids == {c[0] for c in CHECKS} | {n[0] for n in NOT_APPLICABLE}, ids ^ ({c[0] for c in CHECKS} | {n[0] for n in NOT_APPLICABLE})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
     "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lvl, "level_note": note} for i, lvl, tech, note in CHECKS],
    "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE], "notes": NOTES}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
