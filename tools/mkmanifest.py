#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/spec.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "checks"))
from spec import CHECKS, NA, NOTE
checks = []
for c, s in CHECKS.items():
    checks.append(dict(property=c, quick_cmd="python3 checks/run.py %s quick" % c, thorough_cmd="python3 checks/run.py %s thorough" % c, evidence_file="evidence/%s.json" % c,
                       technique=s.get("technique", "abstract interpretation of LLVM IR (per-bit Boolean-function dataflow, merged at joins) against a reference semantics"),
                       level=s.get("level", "proof"), level_note=s.get("note", NOTE)))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
na = [dict(property=i, reason=NA.get(i, "no static check built yet")) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="make -s -j8 -C analyzer", checks=checks, not_applicable=na,
               notes="No hooks: /repo carries only fix: commits. Known findings: known_findings.json. Design: DESIGN.md."), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
