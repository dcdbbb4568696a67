"""Shared machinery: compiles probes against /repo's current sources, runs the analyser, decides verdicts."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
VPA = os.path.join(VERIF, "build", "vpa")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
FLAGS = ["-std=c++20", "-include", "cstdint", "-I" + REPO + "/include", "-I" + VERIF + "/checks", "-O0", "-Xclang", "-disable-O0-optnone",
         "-gline-tables-only", "-emit-llvm", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-ferror-limit=0", "-fno-rtti" if False else "-frtti"]
NPROC = int(os.environ.get("VP_JOBS", "8"))

def ensure_tool():
    if not os.path.exists(VPA) or any(os.path.getmtime(os.path.join(VERIF, "analyzer", f)) > os.path.getmtime(VPA) for f in os.listdir(os.path.join(VERIF, "analyzer"))):
        subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "analyzer")], check=True, stdout=subprocess.DEVNULL)

def op(k, w, s=False): return dict(k=k, w=w, s=s)
def ctype(o):
    if "t" in o: return o["t"]
    if o["k"] == "I":
        if o["w"] == 1: return "bool"
        return ("int" if o["s"] else "uint") + str(o["w"]) + "_t"
    return "%s<%d,%s>" % (o["k"], o["w"], "true" if o["s"] else "false")
def show(o):
    if o["k"] == "C": return "text"
    if o["k"] == "I": return ctype(o)
    return "%s%s[%d]" % ("s" if o["s"] else "", "logic" if o["k"] == "L" else "bit", o["w"])

class Probe:
    """One expression over operands a, b, c...; `code` overrides the body (must define r)."""
    def __init__(self, opname, ops, res, expr=None, code=None, p=None, ps=None, first=None, cells=None, frame=True, name=None, fam=None, store=None, chars=None):
        self.op, self.ops, self.res = opname, ops, res
        self.expr, self.code, self.p, self.ps = expr, code, p or {}, ps or {}
        self.first, self.cells, self.frame, self.store, self.chars = first or [], cells or [dict(id="all", ops=[])], frame, store, chars
        self.fam = fam
        self.text = name or ((expr or opname) + " with " + ", ".join("%s=%s" % (n, show(o)) for n, o in zip("abcdefgh", ops)))
        self.id = None
    def body(self):
        ls = []
        names = "abcdefgh"
        for n, o in zip(names, self.ops):
            if o["k"] == "C":
                ls.append("char %s_[%d]; for (int i = 0; i < %d; i++) %s_[i] = (char)*in++; std::string_view %s(%s_, %d);" % (n, max(1, o["n"]), o["n"], n, n, n, o["n"]))
            else:
                ls.append("auto %s = ld<%s>(in);" % (n, ctype(o)))
        if self.code: ls.append(self.code)
        elif self.expr: ls.append("auto r = (%s);" % self.expr)
        res = list(self.res)
        if self.store: ls.append(self.store)
        elif res and res[0]["k"] == "S": ls.append("sts(out, r);")
        else: ls.append("st(out, 0, r);")
        if self.frame:
            for i, (n, o) in enumerate(zip(names, self.ops)):
                if o["k"] in "LB":
                    ls.append("st(out, %d, %s);" % (len(res), n))
                    res.append(dict(k=o["k"], w=o["w"], s=o["s"], frame=i))
        self.res_ = res
        return " ".join(ls)
    def json(self, fn):
        d = dict(id=self.id, fn=fn, op=self.op, ops=[{k: v for k, v in o.items() if k in ("k", "w", "s")} for o in self.ops], res=self.res_, p=self.p, ps=self.ps, first=self.first, cells=self.cells)
        return d

def run_cmd(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

class Session:
    def __init__(self, budget=840):
        ensure_tool()
        self.dir = tempfile.mkdtemp(prefix="vp_", dir=os.environ.get("VP_TMP", "/tmp"))
        self.t0 = time.time()
        self.budget = budget
        self.pch = None
        self.found, self.stopped = None, False
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def left(self): return max(5, self.budget - (time.time() - self.t0))
    def prepare(self):
        self.util = os.path.join(self.dir, "util.bc")
        pch = os.path.join(self.dir, "probe.pch")
        jobs = [[CXX, *FLAGS, "-c", REPO + "/src/util.cc", "-o", self.util],
                [CXX, *[f for f in FLAGS if f != "-emit-llvm"], "-x", "c++-header", VERIF + "/checks/probe.hh", "-o", pch]]
        with cf.ThreadPoolExecutor(2) as ex: rs = list(ex.map(lambda c: run_cmd(c, 300), jobs))
        self.util_err = rs[0].stderr.decode()[-3000:] if rs[0].returncode else None
        self.hdr_err = rs[1].stderr.decode()[-3000:] if rs[1].returncode else None
        self.pch = pch
    def source(self, probes):
        out = ["#include \"probe.hh\""]
        for p in probes:
            out.append("extern \"C\" void %s(const u64 *in, u64 *out) { %s }" % (p.id, p.body()))
        return "\n".join(out) + "\n"
    def compile(self, name, probes):
        src = os.path.join(self.dir, name + ".cc")
        bc = os.path.join(self.dir, name + ".bc")
        open(src, "w").write(self.source(probes))
        r = run_cmd([CXX, *FLAGS, "-include-pch", self.pch, "-c", src, "-o", bc], self.left())
        return (bc, None) if r.returncode == 0 else (None, r.stderr.decode())
    def chunk(self, name, probes):
        """-> list of result dicts (one per cell), compile failures as dict(probe=, compile=msg)"""
        res = []
        if self.stopped: return res
        bc, err = self.compile(name, probes)
        if bc is None:
            if len(probes) == 1:
                m = [l for l in err.splitlines() if "error:" in l]
                return [dict(probe=probes[0].id, cell="-", compile=(m[0] if m else err[:300]))]
            # find the failing ones by the line numbers of the errors (one probe per line)
            bad = set()
            base = name + ".cc"
            for l in err.splitlines():
                mm = re.match(r".*?" + re.escape(base) + r":(\d+):", l)
                if mm: bad.add(int(mm.group(1)) - 2)
            bad = {i for i in bad if 0 <= i < len(probes)}
            good = [p for i, p in enumerate(probes) if i not in bad]
            if not bad or len(good) == len(probes):
                h = len(probes) // 2
                return self.chunk(name + "l", probes[:h]) + self.chunk(name + "r", probes[h:])
            for i in sorted(bad): res += self.chunk("%s_%d" % (name, i), [probes[i]])
            if good: res += self.chunk(name + "g", good)
            return res
        job = os.path.join(self.dir, name + ".json")
        json.dump(dict(bc=[bc, self.util], probes=[p.json(p.id) for p in probes]), open(job, "w"))
        pr = subprocess.Popen([VPA, job], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        timer = threading.Timer(self.left(), pr.kill)
        timer.start()
        try:
            for l in pr.stdout:
                try: x = json.loads(l)
                except ValueError: continue
                res.append(x)
                if self.found and not self.stopped and self.found(x): self.stopped = True
                if self.stopped: pr.kill(); break
        finally:
            timer.cancel()
            pr.stdout.close()
            rc = pr.wait()
        done = {(x.get("probe"), x.get("cell")) for x in res}
        for p in probes:
            for c in p.cells:
                if (p.id, c["id"]) not in done:
                    res.append(dict(probe=p.id, cell=c["id"], undecided="analysis of the chunk ended early (rc %s)" % rc, violations=[], undecidedObs=[], obligations=0, proved=0, kinds={}, provedKinds={}))
        return res
    def run(self, probes, per=24, found=None):
        """found(result): true once enough has been seen to stop"""
        self.found = found
        self.prepare()
        if self.hdr_err: return [dict(fatal="headers do not compile: " + self.hdr_err)]
        if self.util_err: return [dict(fatal="src/util.cc does not compile: " + self.util_err)]
        for i, p in enumerate(probes): p.id = "p%d" % i
        # interleave so that heavy neighbours are spread
        n = max(1, min(len(probes), max(NPROC, (len(probes) + per - 1) // per)))
        chunks = [probes[i::n] for i in range(n)]
        out = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(lambda x: self.chunk("t%d" % x[0], x[1]), enumerate(chunks)): out += r
        return out
