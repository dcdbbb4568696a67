#!/usr/bin/env python3
"""Developer aid: run families and summarise what is not proved.  triage.py FAMILY [tier] [filter]"""
import re, sys, collections, time, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "checks"))
import vlib, gen
fam = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else "quick"; flt = sys.argv[3] if len(sys.argv) > 3 else ""
P = [p for f in fam.split(",") for p in gen.FAMILIES[f](tier) if flt in p.text]
S = vlib.Session(); t = time.time(); R = S.run(P); S.close()
by = {p.id: p for p in P}
stat = collections.Counter(); comp = collections.OrderedDict(); vio = collections.OrderedDict(); und = collections.OrderedDict()
slow = []
for r in R:
    if "fatal" in r: print(r["fatal"][:3000]); continue
    if "functions" in r: continue
    p = by[r["probe"]]
    if "compile" in r:
        m = re.sub(r"^.*?error:", "", r["compile"]); m = re.sub(r"'[^']*'", "'..'", m)
        comp.setdefault((p.op, m[:150]), []).append(p.text + "  @" + re.sub(r": error.*", "", r["compile"])[-40:]); continue
    stat["cells"] += 1; stat["obl"] += r["obligations"]; stat["proved"] += r["proved"]
    slow.append((r.get("ms", 0), p.text, r["cell"]))
    for v in r["violations"]:
        if p.op in ("str", "parse") and "allocates" in v["kind"]: continue
        vio.setdefault((p.op, v["kind"]), []).append((p.text, v["detail"], v["loc"]))
    if r.get("undecided"): und.setdefault((p.op, r["undecided"][:90]), []).append(p.text)
    for u in r["undecidedObs"]: und.setdefault((p.op, u["kind"], u["why"][:90]), []).append(p.text)
N = int(os.environ.get("N", "3"))
for k, v in comp.items(): print("COMPILE", k, len(v)); [print("      ", x) for x in v[:N]]
for k, v in vio.items():
    print("VIOL", k, len(v))
    for x in v[:N]: print("      ", x[0], "|", x[1][:260], "|", x[2])
for k, v in und.items(): print("UNDEC", k, len(v)); [print("      ", x) for x in v[:N]]
slow.sort(reverse=True)
print(dict(stat), "probes", len(P), "time %.1f" % (time.time() - t), "slow", slow[:3])
