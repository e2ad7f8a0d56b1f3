#!/usr/bin/env python3
"""Writes MANIFEST.json and known-findings.txt's check list from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the C++ source (symbolic execution of the clang AST, Z3)"
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
m = dict(version=1, setup_cmd="./check --setup", checks=[], not_applicable=[])
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in CLAIMS:
        lvl, note = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                                technique=TECH, level=lvl, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no contract written yet")))
m["notes"] = "known-findings.txt lists the defects of the pinned commit that were repaired in /repo; DESIGN.md describes the method."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
