#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py and checks.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
from props import PROPS, NA
C = json.load(open(os.path.join(V, "checks.json")))["checks"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "Every check extracts the functions under contract from /repo on each run, has Verus discharge all obligations, and runs the bounded stand-in of the same contracts natively; see DESIGN.md."}
for p in PROPS:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                            "technique": "contract-based deductive verification (Verus on functions extracted from /repo) with a bounded stand-in for what is outside its reach",
                            "level": "proof", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i) or "no check yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
