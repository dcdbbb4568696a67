"""C27: layout obligations as compile-time constants.  One static_assert per obligation in a generated translation unit
over /repo's headers; the type checker decides each of them, nothing is run."""
import os, re, subprocess, tempfile, shutil
import vlib

def holder(w, s):
    if w == 1: return "bool"
    n = 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64
    return ("int" if s else "uint") + str(n) + "_t"
def nbytes(w): return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 * ((w + 63) // 64)

def obligations(tier):
    ws = list(range(1, 140)) + [191, 192, 193, 255, 256, 257, 320, 321, 511, 512, 513, 1000]
    if tier == "thorough": ws = list(range(1, 700)) + [1023, 1024, 1025, 2048, 4095]
    out = []   # (what, condition)
    for w in ws:
        for s in (("false", "true") if w > 1 else ("false",)):
            for asc in (False, True):
                ranges = [(0, w - 1)] if asc else [(w - 1, 0), (w + 6, 7)]
                for a, b in ranges:
                    B, L = "logic::bit<%d,%d,%s>" % (a, b, s), "logic::logic<%d,%d,%s>" % (a, b, s)
                    nb = nbytes(w); al = min(nb, 8)
                    for t, k in ((B, 1), (L, 2)):
                        nm = t.replace("logic::", "")
                        out += [("%s occupies %d bytes" % (nm, nb * k), "sizeof(%s) == %d" % (t, nb * k)),
                                ("%s is aligned like its storage (%d)" % (nm, al), "alignof(%s) == %d" % (t, al)),
                                ("%s is trivially copyable" % nm, "std::is_trivially_copyable_v<%s>" % t),
                                ("%s has %d declared bits" % (nm, w), "%s::size == %d" % (t, w)),
                                ("%s: declared signedness" % nm, "%s::is_signed == %s" % (t, s)),
                                ("%s: number of states" % nm, "%s::is_4state == %s" % (t, "true" if k == 2 else "false"))]
                    if w <= 64: out.append(("%s is stored in a %s" % (B, holder(w, s == "true")), "std::is_same_v<decltype(%s::value), %s>" % (B, holder(w, s == "true"))))
                    else: out.append(("%s is stored in %d words" % (B, (w + 63) // 64), "std::is_same_v<std::remove_cvref_t<decltype(std::declval<%s>().value.values[0])>, uint64_t> && sizeof(%s::value.values) == %d" % (B, B, nb)))
                    out.append(("%s: the value plane is the two-state vector" % L, "std::is_same_v<decltype(%s::value), %s>" % (L, B)))
                    out.append(("%s: the unknown plane has one bit per bit" % L, "decltype(%s::xz_mask)::size == %d && !decltype(%s::xz_mask)::is_signed && sizeof(%s::xz_mask) == %d" % (L, w, L, L, nb)))
                    if w > 64: out.append(("%s: unknown plane words" % L, "decltype(%s::xz_mask)::size == %d" % (L, w)))
        for tpl in ("packed_struct", "union_"):
            for fs, base in (("true", "logic"), ("false", "bit")):
                out.append(("%s<%d, %s> is a plain %s[%d:0]" % (tpl, w, fs, base, w - 1), "std::is_same_v<logic::%s<%d, %s>::type, logic::%s<%d,0,false>>" % (tpl, w, fs, base, w - 1)))
            out.append(("%s<%d> defaults to four states" % (tpl, w), "std::is_same_v<logic::%s<%d>::type, logic::logic<%d,0,false>>" % (tpl, w, w - 1)))
    els = [1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 128]
    for ew in els:
        for n in ((1, 2, 3, 4, 7, 10) if tier != "thorough" else tuple(range(1, 20))):
            for k in ("logic", "bit"):
                for s in ("false", "true") if ew > 1 else ("false",):
                    for hi, lo in ((n - 1, 0), (n + 3, 4), (0, n - 1)):
                        t = "logic::packed_array<logic::%s<%d,0,%s>,%d,%d>" % (k, ew - 1, s, hi, lo)
                        nm = t.replace("logic::", "")
                        W = ew * n
                        out += [("%s is a vector of %d bits" % (nm, W), "std::is_base_of_v<logic::%s<%d,0,%s,true>, %s>" % (k, W - 1, s, t)),
                                ("%s occupies what a vector of %d bits does" % (nm, W), "sizeof(%s) == sizeof(logic::%s<%d,0,%s>) && sizeof(%s) == %d" % (t, k, W - 1, s, t, nbytes(W) * (2 if k == "logic" else 1))),
                                ("%s is trivially copyable" % nm, "std::is_trivially_copyable_v<%s>" % t),
                                ("%s: total size" % nm, "%s::size == %d && %s::array_size == %d && %s::base_size == %d" % (t, W, t, W, t, ew))]
                        u = "logic::unpacked_array<logic::%s<%d,0,%s>,%d,%d>" % (k, ew - 1, s, hi, lo)
                        out.append(("%s has %d elements side by side" % (u, n), "sizeof(%s) == %d * sizeof(logic::%s<%d,0,%s>) && %s::size == %d" % (u, n, k, ew - 1, s, u, n)))
                if n <= 4:
                    t = "logic::packed_array<logic::packed_array<logic::%s<%d,0>,1,0>,%d,0>" % (k, ew - 1, n - 1)
                    out.append(("%s is one vector" % t.replace("logic::", ""), "%s::size == %d && sizeof(%s) == %d" % (t, 2 * ew * n, t, nbytes(2 * ew * n) * (2 if k == "logic" else 1))))
    return out

def check(tier):
    obs = obligations(tier)
    d = tempfile.mkdtemp(prefix="vp_", dir=os.environ.get("VP_TMP", "/tmp"))
    viol, und = [], 0
    try:
        import concurrent.futures as cf
        n = 8; parts = [obs[i::n] for i in range(n)]
        def one(i):
            src = os.path.join(d, "l%d.cc" % i)
            with open(src, "w") as f:
                f.write("#include \"probe.hh\"\n")
                for what, cond in parts[i]: f.write("static_assert(%s);\n" % cond)
            r = subprocess.run([vlib.CXX, "-std=c++20", "-include", "cstdint", "-I" + vlib.REPO + "/include", "-I" + vlib.VERIF + "/checks", "-fsyntax-only", "-w", "-ferror-limit=0", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
            bad, other, last = {}, [], None
            for l in r.stderr.decode().splitlines():
                m = re.match(r".*/l%d\.cc:(\d+):\d+: (error|note): (.*)" % i, l)
                if m:
                    k = int(m.group(1)) - 2
                    if m.group(2) == "error": bad.setdefault(k, m.group(3))
                    elif "evaluates to" in m.group(3): bad[k] = bad.get(k, "") + " (" + m.group(3) + ")"
                    elif "in instantiation" in m.group(3) and last: bad.setdefault(k, last)
                elif "error:" in l: last = l.split("error:")[1].strip(); other.append(l)
            return i, r.returncode, bad, other
        fatal = None
        with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
            for i, rc, bad, other in ex.map(one, range(n)):
                for k, msg in sorted(bad.items()):
                    if 0 <= k < len(parts[i]): viol.append((parts[i][k][0], msg, parts[i][k][1]))
                if rc and not bad: fatal = "headers do not compile: " + "\n".join(other[:3])
    finally: shutil.rmtree(d, ignore_errors=True)
    return dict(obligations=len(obs), discharged=len(obs) - len(viol), violations=viol, fatal=fatal, samples=[dict(obligation=o[0], condition=o[1]) for o in obs[::997]],
                functions=["bit", "logic", "big_num", "packed_struct", "union_", "packed_array", "unpacked_array", "util::get_holder_type", "util::get_array_type"], coverage=dict(layout_obligations=len(obs)))
