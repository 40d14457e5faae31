#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py.
Only for editing; no check runs it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, PENDING
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        files, mech, state = p["files"], p["mech"], p.get("state", [])
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": files,
                         "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "observe_at": p["observe"], "hook_needed": None}}
        if state:
            o["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
        assert len(o["title"]) <= 80, o["id"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in PENDING:
        na.append({"property": p["id"], "reason": PENDING[p["id"]]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                   "thorough_cmd": "./check.sh " + p["id"] + " --thorough",
                   "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses only the public API of the crate. --thorough (or VERIF_TIER=thorough) explores more cases."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
