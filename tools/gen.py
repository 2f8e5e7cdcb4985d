#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + "/tools"]
from meta import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
assert {p["id"] for p in PROPS} - na == set(CHECKS), set(CHECKS) ^ ({p["id"] for p in PROPS} - na)
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in PROPS if p["id"] not in na],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks: every check compiles /repo's sources unchanged. Everything is built below /verif/build, which git ignores."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
