#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os

from props import NOT_CLAIMED, PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_CLAIMED:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        for n in p["files"]:
            assert os.path.exists("/repo/" + n), n
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} quick",
                 "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_CLAIMED]}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
