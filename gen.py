#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from spec/properties.py (one place for both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from spec.properties import PROPS, NA, NOTES

LEVEL_NOTE_TAIL = (" Decided from /repo's source on every run, nothing of phasor is executed; trusts Python's ast, "
                   "this framework's value numbering / normal forms, and the assumptions listed in the evidence file.")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["quant"]},
               "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(rec, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    cmd = "python3 check.py %s" % p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": p["technique"],
                   "level": "other", "level_note": p["note"] + LEVEL_NOTE_TAIL})
man = {"version": 1, "setup_cmd": "python3 -c \"import ast\"", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": NOTES}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
