#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props_*.py (kept in step by construction)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
PROPS = []
for m in ("props_vm", "props_tool"):
    try:
        PROPS += __import__(m).PROPS
    except ModuleNotFoundError:
        pass
NA = {}
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]}); continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is driven through the public API, the command lines and files. See DESIGN.md; known-findings.txt lists repaired and recorded defects."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
