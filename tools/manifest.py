#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan in check.py"""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, root)
import check
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: all monitors observe public interfaces. Known and fixed defects: known_findings.txt"}
for i in ids:
    if i in check.PLAN:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "monitor not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
