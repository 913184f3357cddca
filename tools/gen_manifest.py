#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"],
        level_note=c.get("level_note", "Held on every execution the workload produced; coverage counts are in the evidence file. Not a proof: paths and schedules never driven are not decided.")))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check still being built")) for p in props if p["id"] not in CHECKS]
m = dict(version=1, setup_cmd="python3 -m py_compile run.py checks.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
