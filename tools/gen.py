#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(f"{root}/properties.jsonl", "w") as f:
    for p in props.P:
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": False}}
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(f"{root}/harness/{p['id']}.c"):
            checks.append({"property": p["id"],
                           "quick_cmd": f"python3 vp.py check {p['id']} --tier quick",
                           "thorough_cmd": f"python3 vp.py check {p['id']} --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": props.TECH, "level": "model_checking", "level_note": props.NOTE})
        else:
            na.append({"property": p["id"], "reason": "No harness yet: within reach of the method, not built so far."})
m = {"version": 1, "setup_cmd": "python3 vp.py setup", "checks": checks, "not_applicable": na,
     "notes": "One harness per property in harness/, driven by vp.py; see DESIGN.md. Replay a reported counterexample with: python3 vp.py replay FILE."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
