#!/usr/bin/env python3
"""Audit: source lines of the library that no analysed expression reaches (quick grids)."""
import os, re, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "checks"))
os.environ["VPA_LINES"] = "1"
import vlib, gen
seen = {}
for fam in (sys.argv[1:] or gen.FAMILIES):
    S = vlib.Session(budget=3000)
    try:
        for r in S.run(gen.FAMILIES[fam]("quick")):
            for l in r.get("lines", []):
                m = re.match(r"(.*?):(\d+) \(", l)
                if m: seen.setdefault(os.path.basename(m.group(1)), set()).add(int(m.group(2)))
    finally: S.close()
for d in ("include/logic", "src"):
    for f in sorted(os.listdir(os.path.join(vlib.REPO, d))):
        if not f.endswith((".hh", ".cc")): continue
        s = seen.get(f, set())
        print("==== %s: %d lines reached" % (f, len(s)))
        for i, l in enumerate(open(os.path.join(vlib.REPO, d, f)), 1):
            t = l.strip()
            if i in s or not re.search(r"[;{=]", t) or t.startswith(("//", "*", "/*", "#", "requires", "template", "namespace", "static_assert", "using")) or t in ("}", "};", "{", "} else {"): continue
            print("%4d %s" % (i, l.rstrip()[:150]))
