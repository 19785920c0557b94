#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
PROPS.sort(key=lambda p: p["id"])
TECH = "symbolic execution of the Go SSA of the real code, SMT (z3) deciding every path and assertion within bounds"
TRUST = ("trusted: go/ssa front end, the executor's models of standard-library primitives, z3; "
         "sampled paths and every counterexample are replayed on the natively compiled code")
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
na = {n for n, _ in NA}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert os.path.isdir(root + "/harness/" + p["id"].lower()) or any(
        x.startswith(p["id"].lower() + "_") for x in os.listdir(root + "/harness")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
                   "thorough_cmd": "./run.sh %s thorough" % p["id"],
                   "technique": p.get("tech", TECH), "level": "model_checking",
                   "level_note": "Holds for every value within: " + p["bounds"] + ". Outside the bounds nothing is claimed. " + TRUST + "."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "All checks: ./run.sh ID TIER; the encoding is regenerated from /repo's working tree on every run."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
