#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property of /repo's current sources.
exit 0 held on everything analysed, exit 1 with a VIOLATION line, exit 2 no answer (analysis broken)."""
import collections, hashlib, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, gen
from spec import CHECKS
V = vlib.VERIF
UB = ("out-of-bounds", "write to constant", "control reaches", "signed overflow", "shift amount", "division by zero", "signed division", "leading-zero", "trap", "invalid dealloc")
EFFECT = ("throws", "aborts", "allocates", "call to external")
GLOBAL = ("read of a mutable global", "write to a global")

def belongs(prop, kind, p):
    """does an obligation of this kind, arising in probe p, decide property prop?"""
    if kind.startswith("event:"):
        e = kind[6:]
        if p.op in ("parse", "str") and e.startswith("allocates"): return False
        if e.startswith(GLOBAL): return prop == "C29"
        if e.startswith(EFFECT): return prop == "C28" or p.kinds["val"] == prop
        return prop == "C30" or p.kinds["val"] == prop
    if kind == "uninit": return prop == "C30"
    if kind == "ret" and prop == "C28": return True
    return p.kinds.get(kind) == prop

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = CHECKS[prop]
    floor = json.load(open(os.path.join(V, "checks", "floors.json"))).get(prop, 1)
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k.get("property") == prop and k.get("status") == "open"]
    probes, viol, knownHit, stat = [], [], collections.OrderedDict(), collections.Counter()
    undec = collections.Counter(); fns = set(); samples = []; fatal = None; extra = {}
    if spec.get("families"):
        for f in spec["families"]:
            for p in gen.FAMILIES[f](tier if not spec.get("cross") else ("thorough" if tier == "thorough" else "quick")):
                p.fam = f
                if spec.get("cross"):
                    if not gen.cross(prop, p, tier, seed): continue
                elif prop not in p.kinds.values(): continue
                if spec.get("select") and not spec["select"](p): continue
                probes.append(p)
        S = vlib.Session(budget=800 if tier == "quick" else 3300)
        hits = []
        def found(r):
            """enough violations to report: the rest of the grid need not be analysed (never while a known finding has to be told apart)"""
            p = {q.id: q for q in probes}.get(r.get("probe")) if r.get("violations") else None
            hits.extend(v for v in r["violations"] if belongs(prop, v["kind"], p)) if p else None
            return not known and tier == "quick" and len(hits) >= 40
        try: R = S.run(probes, found=found, per=spec.get("per", 60 if len(probes) > 8000 else 24))
        finally: S.close()
        by = {p.id: p for p in probes}
        compiled = set()
        failed = {}
        for r in R:
            if "fatal" in r: fatal = r["fatal"]; continue
            if "functions" in r: fns.update(r["functions"]); continue
            p = by[r["probe"]]
            if "compile" in r: failed[p.id] = r["compile"]; continue
            compiled.add(p.id)
            ours = {k: n for k, n in r["kinds"].items() if belongs(prop, k, p)}
            if prop in ("C28", "C29", "C30") or True:
                stat["cells"] += 1
            ob, pr = sum(ours.values()), sum(n for k, n in r["provedKinds"].items() if k in ours)
            vs = [v for v in r["violations"] if belongs(prop, v["kind"], p)]
            us = [u for u in r["undecidedObs"] if belongs(prop, u["kind"], p)]
            if prop in ("C28", "C29", "C30"):
                # one more obligation per analysed cell: no forbidden event anywhere below the operation
                ob += 1
                pr += 0 if (r.get("undecided") or any(v["kind"].startswith("event:") for v in vs) or any(u["kind"].startswith("event:") for u in us)) else 1
            stat["obligations"] += ob; stat["discharged"] += pr
            stat["blocks"] += r.get("blocks", 0); stat["instructions"] += r.get("instrs", 0)
            if r.get("undecided"):
                stat["undecided_cells"] += 1; undec[r["undecided"][:100]] += 1
            if us: stat["undecided_obligations"] += len(us); undec[us[0]["why"][:100]] += len(us)
            if len(samples) < 6 and ob and (stat["cells"] % 97 == 1): samples.append(dict(expression=p.text, cell=r["cell"], obligations=ob, discharged=pr, blocks=r.get("blocks", 0)))
            for v in vs:
                if v["kind"].startswith("event:") and any(v2["kind"] == v["kind"] and v2["loc"] == v["loc"] and q is p for q, v2, _ in viol): continue
                viol.append((p, v, r["cell"]))
        for pid, msg in failed.items():
            p = by[pid]
            if getattr(p, "internal", False): continue  # not part of the vector interface: may change freely
            if prop in (p.kinds.get("compile"), "C13") or spec.get("cross") is None and prop in p.kinds.values():
                viol.append((p, dict(kind="compile", slot=0, detail="the expression is no longer accepted: " + msg[-300:], loc="?"), "-"))
        stat["expressions"] = len(probes); stat["rejected"] = len(failed)
        if not compiled and not fatal: fatal = "no analysed expression compiles: " + (next(iter(failed.values()))[:500] if failed else "")
        # known findings: the violating cells again, with the recorded behaviour as the reference
        if viol and known: viol = reconcile(known, viol, knownHit, tier)
        if not viol and not fatal:
            if stat["obligations"] < floor: fatal = "only %d obligations (expected at least %d)" % (stat["obligations"], floor)
            elif stat["discharged"] * 2 < stat["obligations"] : fatal = "most obligations are undecided: %s" % undec.most_common(3)
    for fn in spec.get("static", []):
        res = fn(tier)   # dict(obligations, discharged, violations=[(what, detail, loc)], functions, samples, fatal)
        stat["obligations"] += res.get("obligations", 0); stat["discharged"] += res.get("discharged", 0)
        fns.update(res.get("functions", [])); samples += res.get("samples", [])[:4]
        extra.update(res.get("coverage", {}))
        if res.get("fatal"): fatal = fatal or res["fatal"]
        for what, detail, loc in res.get("violations", []):
            viol.append((None, dict(kind="static", slot=0, detail=detail, loc=loc, what=what), "-"))
    wall = time.time() - t0
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cov = dict(obligations=stat["obligations"], discharged=stat["discharged"],
               checker_cmd="python3 checks/run.py %s %s" % (prop, tier),
               trusted_base=["clang 18 front end (-O0 LLVM IR of /repo's current headers and src/util.cc)", "LLVM SROA", "analyzer/ (abstract interpreter, Boolean-function domain, library models)", "analyzer/oracle.cc (reference meaning)"],
               expressions=stat["expressions"], cells=stat["cells"], ir_blocks=stat["blocks"], ir_instructions=stat["instructions"],
               undecided_cells=stat["undecided_cells"], undecided_obligations=stat["undecided_obligations"], undecided_reasons=dict(undec.most_common(5)),
               functions_analysed=len(fns), functions=sorted(fns)[:40], rule=spec["rule"], samples=samples or [dict(note="see rule")],
               known_findings=[k for k in knownHit], explanation=spec.get("explanation", spec["rule"]))
    cov.update(extra)
    lev = spec.get("level", "proof") if cov["discharged"] else "other"
    ev = dict(property=prop, tier=tier, seed=seed, level=lev, coverage=cov, wall_s=round(wall, 2), assumptions=spec.get("assumptions", []), violations=len(viol))
    if os.environ.get("VP_NOEVIDENCE") is None:
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k, n in knownHit.items(): print("KNOWN-FINDING: property=%s %s (%d expressions)" % (prop, k, n))
    print("%s %s: %d/%d obligations discharged over %d expressions, %d library functions, %.1f s" % (prop, tier, cov["discharged"], cov["obligations"], stat["expressions"], len(fns), wall))
    for k, n in undec.most_common(5): print("  undecided (%d): %s" % (n, k))
    if viol:
        d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + ".txt")
        with open(rp, "w") as f:
            for p, v, cell in viol:
                f.write("%s\n  rule: %s\n  kind: %s  cell: %s\n  at: %s\n  %s\n\n" % (p.text if p else v["what"], spec["rule"], v["kind"], cell, v["loc"], v["detail"]))
        for p, v, cell in viol[:5]:
            print("  %s | %s | %s | at %s" % (p.text if p else v["what"], v["kind"], v["detail"][:400], v["loc"]))
        if len(viol) > 5: print("  ... %d more in %s" % (len(viol) - 5, rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if fatal:
        print("NO ANSWER: " + fatal[:3000])
        # sources that do not compile at all leave nothing to analyse
        return 2
    return 0

def reconcile(known, viol, hits, tier):
    """re-decide the violating cells against the behaviour recorded for a known finding"""
    rest, groups = [], collections.OrderedDict()
    for p, v, cell in viol:
        k = next((k for k in known if p is not None and p.op in k["ops"] and v["kind"] in k["kinds"] and gen.KNOWN[k["id"]](p)), None)
        if k is None: rest.append((p, v, cell))
        else: groups.setdefault((k["id"], p.id), (k, p, []))[2].append((p, v, cell))
    if not groups: return rest
    again = []
    for (kid, pid), (k, p, vs) in groups.items():
        p.p = dict(p.p, known=1)
        again.append((k, p, vs))
    S = vlib.Session(budget=400)
    try: R = S.run([p for _, p, _ in again])
    finally: S.close()
    bad = collections.defaultdict(list)
    for r in R:
        if "functions" in r or "fatal" in r: continue
        if r.get("undecided") or r.get("compile") or r.get("undecidedObs"): bad[r["probe"]].append(dict(kind="known", slot=0, detail="not the recorded behaviour: undecided", loc="?"))
        bad[r["probe"]] += [v for v in r.get("violations", [])]
    for k, p, vs in again:
        b = [v for v in bad.get(p.id, []) if v["kind"] in k["kinds"] or v["kind"] == "known"]
        if b: rest += [(p, v, "known") for v in b]
        else: hits[k["what"]] = hits.get(k["what"], 0) + 1
    return rest

if __name__ == "__main__":
    sys.exit(main())
