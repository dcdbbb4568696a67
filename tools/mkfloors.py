#!/usr/bin/env python3
"""Writes checks/floors.json from the evidence of a full quick run: a check that generates far fewer obligations gives no answer."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = {}
for f in sorted(glob.glob(os.path.join(R, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e["tier"] == "quick": d[e["property"]] = e["coverage"]["obligations"] * 6 // 10
json.dump(d, open(os.path.join(R, "checks", "floors.json"), "w"), indent=0)
