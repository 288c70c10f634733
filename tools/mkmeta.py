#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
PROPS.sort(key=lambda p: p["id"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
             "quantifier": {"over": p["over"], "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p.get("na"):
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")] + NOT_APPLICABLE,
     "notes": NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
