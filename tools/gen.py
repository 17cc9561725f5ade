#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(here, "props", "C*.json"))):
    d = json.load(open(f))
    pid = d["id"]
    props.append({k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    if "not_applicable" in d:
        na.append({"property": pid, "reason": d["not_applicable"]})
    else:
        checks.append({"property": pid, "quick_cmd": f"bash check.sh {pid} quick", "thorough_cmd": f"bash check.sh {pid} thorough",
                       "technique": d["technique"], "level": "other", "level_note": d["level_note"]})
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current source (sa/, Go, x/tools SSA); no code of /repo is run. No hooks are needed in /repo. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
import sys
for p in props:
    assert len(p["title"]) <= 80, p["id"]
print(len(props), "properties,", len(checks), "claimed")
