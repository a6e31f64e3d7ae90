#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="its monitor has not been built yet"))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique="runtime monitoring: " + c["technique"], level="exploration", level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes through the public API, the memory and the instructions executed. "
               "Commits in /repo are repairs only (messages start with fix:), listed in known-findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
