#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks registered in the harness."""
import json, re, subprocess, os, glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
src = "".join(open(f).read() for f in glob.glob("harness/*.go"))
have = set(re.findall(r'register\(&Check\{ID: "([A-Z]\d\d)"', src))
tech = json.load(open("tools/techniques.json"))
checks, na = [], []
for l in open("properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in have:
        t = tech[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "not claimed yet: its check is not built"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests (pgregory.net/rapid) in one Go program that is rebuilt against /repo's working tree for every run. No hooks in /repo are needed."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
