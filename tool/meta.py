#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py (the single source of both)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tool"))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
man = {"version": 1, "setup_cmd": "./tool/build.sh", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
       "notes": "All checks are static: tool/extract.cpp (clang front end) dumps the resolved program of /repo's current tree, lib/ interprets it symbolically without running it."}
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
        print("no check for", p["id"])
        man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "./check.py %s --tier quick" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
                          "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["level_note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
