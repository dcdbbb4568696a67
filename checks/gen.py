"""The analysed expressions: every public operation over a grid of operand types.
Each family returns probes; a probe's `kinds` maps obligation kinds to the property they decide."""
from vlib import Probe, op, ctype as ctype_
import hashlib, itertools

SAME_Q = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 56, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 160, 192, 193, 200, 256, 257, 320]
SAME_T = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 56, 63, 64, 65, 66, 72, 96, 100, 120, 127, 128, 129, 130, 150, 191, 192, 193, 200, 255, 256, 257, 300, 320, 321]
MIX_Q = [(5, 20), (8, 16), (20, 32), (20, 40), (7, 8), (33, 64), (20, 100), (64, 65), (64, 128), (65, 130), (100, 140), (1, 8), (1, 100), (128, 200), (2, 3), (15, 17), (31, 33), (32, 64), (63, 65), (40, 120), (64, 192), (128, 129), (127, 129), (130, 257), (1, 64)]
MIX_T = MIX_Q + [(2, 3), (4, 9), (8, 9), (15, 17), (16, 32), (31, 33), (32, 64), (63, 64), (63, 65), (63, 100), (40, 120), (127, 129), (128, 129), (64, 192), (66, 200), (130, 257), (1, 64), (1, 2), (100, 128)]
def grid(tier): return (SAME_T, MIX_T) if tier == "thorough" else (SAME_Q, MIX_Q)
def signs(w): return (False, True) if w > 1 else (False,)
def pairs(tier, small=False):
    """operand type pairs (w1, s1, w2, s2)"""
    same, mix = grid(tier)
    out = []
    for w in same:
        for s1, s2 in itertools.product(signs(w), signs(w)): out.append((w, s1, w, s2))
    for i, (x, y) in enumerate(mix):
        for s1, s2 in itertools.product(signs(x), signs(y)):
            out.append((x, s1, y, s2)); out.append((y, s2, x, s1))
    if small:  # thin out: keep all same-sign, every second of the rest
        out = [p for i, p in enumerate(out) if p[1] == p[3] or (i % 2 == 0)]
    return out
# declared ranges other than [N-1:0]: (ascending, low index)
RANGES = [(False, 3), (True, 0), (True, 2), (False, -3)]
def index_cells(w, lo, iw, signed, extra=0, n=1, up=True):
    """windows over an iw-bit index that together cover every base index of an n-bit part of a range of w bits starting at lo"""
    top = max(1, (w - 1 + lo).bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    first, last = (lo, lo + w - n) if up else (lo + n - 1, lo + w - 1)
    out = []
    if last >= 0: out.append(dict(id="in", ops=[{}, dict(v="win:0:%d:0" % min(top, iw - 1 if signed else iw), m="zero")] + [{}] * extra))
    if first < 0 and signed: out.append(dict(id="neg", ops=[{}, dict(v="win:0:%d:%s" % (min(top, iw - 1), "f" * ((iw + 3) // 4)), m="zero")] + [{}] * extra))
    return out
def rname(k, w, s, asc, lo):
    return "%s%s[%d:%d]" % ("s" if s else "", "logic" if k == "L" else "bit", *((lo, lo + w - 1) if asc else (lo + w - 1, lo)))
def ranged(tier):
    """operand type pairs whose declared ranges do not both end at 0: (w1, s1, range1, w2, s2, range2)"""
    out, z = [], (False, 0)
    ws = [(8, 8), (20, 20), (5, 12), (64, 64), (70, 70), (100, 33)] if tier != "thorough" else [(1, 1), (2, 2), (8, 8), (9, 9), (16, 16), (20, 20), (5, 12), (32, 32), (33, 33), (63, 63), (64, 64), (65, 65), (70, 70), (100, 33), (128, 128), (130, 70)]
    for i, (x, y) in enumerate(ws):
        for j, (r1, r2) in enumerate([(RANGES[0], z), (z, RANGES[0]), (RANGES[1], z), (z, RANGES[1]), (RANGES[0], RANGES[2]), (RANGES[2], RANGES[2]), (RANGES[0], RANGES[0])]):
            for s1, s2 in itertools.product(signs(x), signs(y)):
                if tier != "thorough" and (i + j + s1 + 2 * s2) % 3: continue
                out.append((x, s1, r1, y, s2, r2)); 
                if x != y: out.append((y, s2, r1, x, s1, r2))
    return out
ARITH = {"+": ("add", "C04"), "-": ("sub", "C04")}

def K(val, **kw):
    d = {"val": val, "mask": val, "xval": val, "ret": val, "text": val, "type": "C13", "pad": "C12", "frame": "C29", "compile": val}
    d.update(kw)
    return d
def T(k, w, s): return op(k, w, s)

# Binary operators, thinned so that every width is met with each operand kind and sign combination.
def binary(tier, sym, name, resf, kinds, kinds_mixed, mixed=True, sel=None, **kw):
    out = []
    for (w1, s1, w2, s2) in pairs(tier):
        for k1, k2 in (("L", "L"), ("B", "B"), ("L", "B")) + ((("B", "L"),) if mixed == 2 else ()):
            if k1 != k2:
                if not mixed: continue
            if sel and not sel(k1, w1, s1, k2, w2, s2): continue
            k = kinds if k1 == k2 else kinds_mixed
            expr = sym if "a" in sym else "a %s b" % sym
            p = Probe(name, [T(k1, w1, s1), T(k2, w2, s2)], [resf(k1, w1, s1, k2, w2, s2)], expr, **kw)
            p.kinds = k
            out.append(p)
    for (w1, s1, r1, w2, s2, r2) in ranged(tier):
        for k1, k2 in (("L", "L"), ("B", "B"), ("L", "B"), ("B", "L"))[:2 if not mixed else 4 if mixed == 2 else 3]:
            if sel and not sel(k1, w1, s1, k2, w2, s2): continue
            p = Probe(name, [V(k1, w1, s1, *r1), V(k2, w2, s2, *r2)], [resf(k1, w1, s1, k2, w2, s2)], sym if "a" in sym else "a %s b" % sym, **kw)
            p.text = "%s with a=%s, b=%s" % (p.expr, rname(k1, w1, s1, *r1), rname(k2, w2, s2, *r2))
            p.kinds = kinds if k1 == k2 else kinds_mixed
            out.append(p)
    return out
def wider(k1, w1, s1, k2, w2, s2): return op("L" if "L" in (k1, k2) else "B", max(w1, w2), s1 and s2)
def rel1(k1, w1, s1, k2, w2, s2): return op("I", 1) if k1 == "B" else op("L", 1)
def bool1(k1, w1, s1, k2, w2, s2): return op("L", 1) if "L" in (k1, k2) else op("I", 1)

def bitwise(tier):
    out = []
    for sym, n in (("&", "and"), ("|", "or"), ("^", "xor")):
        out += binary(tier, sym, n, wider, K("C01"), K("C31"))
        for (w1, s1, w2, s2) in pairs(tier):
            for k in "LB":
                p = Probe(n + "=", [T(k, w1, s1), T(k, w2, s2)], [op(k, w1, s1)], code="a %s= b;" % sym, store="st(out, 0, a);", frame=False, name="a %s= b with a=%s%s[%d], b=%s%s[%d]" % (sym, "s" if s1 else "", k, w1, "s" if s2 else "", k, w2))
                p.kinds = K("C01")
                out.append(p)
    for w in grid(tier)[0]:
        for s in signs(w):
            for k in "LB":
                p = Probe("not", [T(k, w, s)], [op(k, w, False)], "~a")
                p.kinds = K("C01")
                out.append(p)
    return out

def reductions(tier):
    out = []
    for w in grid(tier)[0]:
        for s in signs(w):
            for n in ("r_and", "r_nand", "r_or", "r_nor", "r_xor", "r_xnor"):
                for k in "LB":
                    p = Probe(n, [T(k, w, s)], [op("L", 1) if k == "L" else op("I", 1)], "a.%s()" % n)
                    p.kinds = K("C02"); out.append(p)
            for n, e, r in (("any_set", "a.any_set()", op("I", 1)), ("all_set", "a.all_set()", op("I", 1)), ("popcount", "a.popcount()", op("I", 64)), ("lnot", "!a", op("I", 1)), ("tobool", "static_cast<bool>(a)", op("I", 1))):
                p = Probe(n, [T("B", w, s)], [r], e)
                p.kinds = K("C20" if n == "tobool" else "C02"); out.append(p)
            p = Probe("lnot", [T("L", w, s)], [op("L", 1)], "!a"); p.kinds = K("C02"); out.append(p)
            p = Probe("tobool", [T("L", w, s)], [op("I", 1)], "static_cast<bool>(a)"); p.kinds = K("C20"); out.append(p)
    return out

def addsub(tier):
    out = []
    for sym, (n, pr) in ARITH.items():
        out += binary(tier, sym, n, wider, K(pr, mask="C03", xval="C03"), K("C31"))
    for w in grid(tier)[0]:
        for s in signs(w):
            for k in "LB":
                for n, e in (("neg", "-a"), ("plus", "+a")):
                    p = Probe(n, [T(k, w, s)], [op(k, w, s)], e); p.kinds = K("C04", mask="C03", xval="C03"); out.append(p)
                for n, e in (("preinc", "++a"), ("postinc", "a++"), ("predec", "--a"), ("postdec", "a--")):
                    p = Probe(n, [T(k, w, s)], [op(k, w, s), op(k, w, s)], code="auto r = %s;" % e, store="st(out, 0, r); st(out, 1, a);", frame=False, name="%s with a=%s%s[%d]" % (e, "s" if s else "", k, w))
                    p.kinds = K("C04", mask="C03", xval="C03"); out.append(p)
    return out

def mulcells(w1, w2, tier):
    """operands of a multi-word product: narrow free windows in every word, and one free operand against sparse constants"""
    W = max(w1, w2)
    cells = []
    def win(lo, n, bg): return dict(v="win:%d:%d:%s" % (lo, n, bg), m="zero")
    n = 5
    def pos(w):
        r = sorted({0, min(60, w - n), max(0, w - n)} | {x for x in range(62, w - n + 1, 64)} | {x for x in range(66, w - n + 1, 64)})
        return [x for x in r if x >= 0]
    p1, p2 = pos(w1), pos(w2)
    for i, (a, b) in enumerate(itertools.product(p1, p2)):
        if tier != "thorough" and i % 3 and (a, b) != (p1[-1], p2[-1]): continue
        cells.append(dict(id="w%d_%d" % (a, b), ops=[win(a, n, "0"), win(b, n, "0")]))
    for i, a in enumerate(p1):
        bg1 = "f" * (w1 // 4); bg2 = "1" * (w2 // 4)
        cells.append(dict(id="p%d" % a, ops=[win(a, n, bg1), win(p2[i % len(p2)], n, bg2)]))
    return cells
def mul(tier):
    out = []
    def sel(k1, w1, s1, k2, w2, s2): return max(w1, w2) <= 64 or (w1 >= 1 and w2 >= 1)
    for p in binary(tier, "*", "mul", wider, K("C05", mask="C03", xval="C03"), K("C31"), sel=sel):
        w1, w2 = p.ops[0]["w"], p.ops[1]["w"]
        if max(w1, w2) > 64:
            if w1 < 8 or w2 < 8 or max(w1, w2) > (260 if tier == "thorough" else 130): continue
            p.cells = mulcells(w1, w2, tier)
            p.cells.append(dict(id="x", ops=[dict(v="zero"), dict(v="win:0:3:0")]))
        out.append(p)
    return out

def divmod_(tier):
    out = []
    for sym, n in (("/", "div"), ("%", "mod")):
        for p in binary(tier, sym, n, wider, K("C06", mask="C03", xval="C03"), K("C31")):
            w1, w2 = p.ops[0]["w"], p.ops[1]["w"]
            if max(w1, w2) <= 64: out.append(p)
    # single-word shortcuts of wide operands
    for w in ([65, 100, 128, 192] if tier != "thorough" else [65, 66, 100, 127, 128, 129, 192, 200, 256]):
        for sym, n in (("/", "div"), ("%", "mod")):
            for k in "LB":
                one = dict(id="one", ops=[dict(m="zero"), dict(v="hex:1", m="zero")])
                p = Probe(n, [T(k, w, False), T(k, w, False)], [op(k, w)], "a %s b" % sym, p=dict(shortcut=1), cells=[one], name="a %s 1 with a=%s[%d]" % (sym, k, w))
                p.kinds = K("C06", mask="C03", xval="C03"); out.append(p)
                p = Probe(n, [T(k, w, False)], [op(k, w)], code="auto r = a %s a;" % sym, p=dict(shortcut=2), cells=[dict(id="nz", ops=[dict(m="zero", v="win:0:%d:0" % w)])], name="a %s a with a=%s[%d]" % (sym, k, w))
                p.kinds = K("C06", mask="C03", xval="C03"); p.same = True; out.append(p)
                p = Probe(n, [T(k, w, False), T(k, w, False)], [op(k, w)], "a %s b" % sym, p=dict(shortcut=3), cells=[dict(id="less", ops=[dict(m="zero", v="win:0:%d:0" % (w - 1)), dict(m="zero", v="win:0:%d:%s" % (w - 1, "%x" % (1 << (w - 1))))])], name="a %s b, b has its top bit set and a not, %s[%d]" % (sym, k, w))
                p.kinds = K("C06", mask="C03", xval="C03"); out.append(p)
                p = Probe(n, [T(k, w, False), T(k, w, False)], [op(k, w)], "a %s b" % sym, p=dict(shortcut=0), cells=[dict(id="word", ops=[dict(m="zero", v="win:0:64:0"), dict(m="zero", v="win:0:64:0")])] if False else [dict(id="x", ops=[dict(v="zero"), dict(v="hex:0", m="zero")])], name="a %s 0 with a=%s[%d] of any unknown bits" % (sym, k, w))
                if k == "L": p.kinds = K("C03"); out.append(p)
    return out

def widediv(tier):
    """division of operands wider than a word: the operands are constants except for a window of free bits each"""
    out = []
    big = tier == "thorough"
    pr = [(65, 65), (100, 100), (128, 128), (130, 130), (192, 192), (200, 200), (100, 20), (20, 100), (128, 64), (64, 128), (200, 70)]
    if big: pr += [(66, 66), (127, 127), (129, 129), (150, 150), (191, 191), (193, 193), (256, 256), (257, 257), (300, 300), (65, 64), (33, 65), (192, 128), (128, 192), (256, 65)]
    for i, (w1, w2) in enumerate(pr):
        for s1, s2 in itertools.product((False, True), repeat=2):
            if not big and s1 != s2 and (i + s1) % 3: continue
            for j, (sym, n) in enumerate((("/", "div"), ("%", "mod"))):
                for k1, k2 in (("B", "B"), ("L", "L")) + ((("L", "B"),) if (i + s1) % 4 == 0 else ()):
                    if not big and k1 == "L" and (i + j + s1) % 3: continue
                    p = Probe(n, [T(k1, w1, s1), T(k2, w2, s2)], [wider(k1, w1, s1, k2, w2, s2)], "a %s b" % sym, cells=widecells(w1, w2, big), p=dict(wide=1))
                    p.kinds = K("C33", mask="C03", xval="C03") if k1 == k2 else K("C31")
                    out.append(p)
    return out
def widecells(w1, w2, big):
    """background constants and free windows of the two operands of a wide division"""
    h = lambda *a: int.from_bytes(hashlib.sha256(repr(a).encode()).digest() * 2, "big")
    cells, W = [], max(w1, w2)
    def cell(id, pa, na, va, pb, nb, vb):
        def win(p, n, v, w):
            n = max(1, min(n if big else n - 1, w)); p = max(0, min(p, w - n)); v &= (1 << w) - 1
            return dict(v="win:%d:%d:%x" % (p, n, v), m="zero")
        cells.append(dict(id=id, ops=[win(pa, na, va, w1), win(pb, nb, vb, w2)]))
    ones = lambda w: (1 << w) - 1
    T1, T2 = 1 << (w1 - 1), 1 << (w2 - 1)
    R1, R2 = h("a", w1, w2), h("b", w1, w2)
    cell("small divisor, random dividend", w1 // 2, 5, R1, 0, 6, 0)
    cell("divisor of about one word", w1 - 6, 5, R1 | T1, 58, 5, R2 & ones(63) | 1 << 63)
    cell("divisor just above one word", w1 - 6, 5, R1 | T1, 62, 3, R2 & ones(62))
    cell("close operands", w1 - 5, 5, R1, w2 - 6, 5, R2 | T2)
    cell("all ones and a power of two", 0, 5, ones(w1), min(w2 - 7, W // 2), 6, 0)
    cell("dividend around a power of two", w1 - 7, 5, T1 >> 1, 0, 4, 3)
    cell("low dividend bits", 0, 6, R1 | 1 << (w1 - 2), w2 // 2, 5, R2 & ones(w2 // 2))
    cell("low word one", w1 - 6, 5, R1 | T1, 64 if w2 > 70 else 0, 5, 1 | (1 << 69 if w2 > 70 else 0))
    cell("equal high parts", 0, 6, R1, 0, 6, R1 & ones(w2))
    cell("second word of both", 64, 6, 0x55, 60, 6, 0)
    cell("one-word quotient of two-word operands", 95, 5, R1 & ones(100) | 1 << 100, 66, 5, R2 & ones(66) | 1 << 72)
    cell("zero words inside", w1 - 6, 5, 1 << (w1 // 2) | T1, 64, 5, 1 << 70)
    for q in range(30 if big else 4):
        r1, r2 = h(q, "a", w1), h(q, "b", w2)
        cell("random %d" % q, r1 % w1, 5, r1 >> 9, r2 % w2, 4, (r2 >> 9) & ones(1 + (r2 >> 300) % w2))
    return cells
def equality(tier):
    out = []
    for sym, n in (("==", "eq"), ("!=", "ne")):
        out += binary(tier, sym, n, bool1, K("C07"), K("C31"))
    return out
def relational(tier):
    out = []
    for sym, n in (("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge")):
        out += binary(tier, sym, n, rel1, K("C08"), K("C31"), mixed=2)
    return out
def caseeq(tier):
    out = []
    for f in ("match", "nmatch"):
        out += binary(tier, "a.%s(b)" % f, f, lambda *a: op("I", 1), K("C09"), K("C09"))
    return out

def shift_pairs(tier):
    ws = [1, 4, 8, 9, 16, 20, 32, 33, 63, 64, 65, 100, 128, 130, 200, 257] if tier != "thorough" else [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 192, 200, 256]
    out = []
    for i, w in enumerate(ws):
        am = [(5, False), (8, True), (w, False), (w, True), (32, True), (64, False), (100, False)] if w > 1 else [(1, False), (3, False), (80, False)]
        if tier != "thorough": am = [am[0], am[(i % 2) + 1], am[2 + (i % 2) if len(am) > 3 else -1]] + am[3:][i % 2::2]
        for (aw, as_) in dict.fromkeys(am):
            if aw == 1: as_ = False
            for s in signs(w): out.append((w, s, aw, as_))
    return out
def amount_cells(w, aw, four):
    """for wide vectors: every amount up to twice the width one storage word at a time, plus larger and unknown amounts"""
    if w < 200: return None
    known = dict(m="zero") if four else {}
    out = [dict(id="w%d" % k, ops=[{}, dict(v="win:0:%d:%x" % (min(6, aw), 64 * k), **known)]) for k in range((2 * w + 63) // 64) if 64 * k < 1 << aw]
    if aw > 9: out += [dict(id="hi%d" % p, ops=[{}, dict(v="win:%d:%d:0" % (p, min(6, aw - p)), **known)]) for p in sorted({9, min(29, aw - 1), min(60, aw - 1), aw - 1})]
    if four: out.append(dict(id="unk", ops=[{}, dict(v="win:0:4:0", m="win:%d:4:0" % max(0, aw - 4))]))
    return out
def shifts(tier):
    out = []
    for (w, s, aw, as_) in shift_pairs(tier):
        for k1, k2 in (("L", "L"), ("B", "B"), ("L", "B")):
            rs = s and as_
            for n, e in (("shl", "a << b"), ("shr", "a >> b"), ("ashl", "a.ashl(b)"), ("ashr", "a.ashr(b)")):
                if k1 != k2 and (n == "ashr" or aw == w): continue
                p = Probe(n, [T(k1, w, s), T(k2, aw, as_)], [op(k1, w, rs)], e, first=[1], cells=amount_cells(w, aw, k2 == "L"))
                p.kinds = K("C11" if n[0] == "a" else "C10") if k1 == k2 else K("C31")
                out.append(p)
            if k1 == k2:
                for n, e in (("shl=", "a <<= b;"), ("shr=", "a >>= b;")):
                    p = Probe(n, [T(k1, w, s), T(k2, aw, as_)], [op(k1, w, s)], code=e, store="st(out, 0, a);", frame=False, first=[1], cells=amount_cells(w, aw, k2 == "L"), name="%s with a=%s%s[%d], b=%s%s[%d]" % (e, "s" if s else "", k1, w, "s" if as_ else "", k2, aw))
                    p.kinds = K("C10"); out.append(p)
    for i, (w, aw) in enumerate(((8, 8), (20, 5), (64, 20), (70, 70), (33, 100), (130, 8))):
        for j, (r1, r2) in enumerate(itertools.product([(False, 0)] + RANGES, repeat=2)):
            if j == 0 or tier != "thorough" and (i + j) % 3: continue
            for k1, k2 in (("L", "L"), ("B", "B"), ("L", "B")):
                for s, as_ in itertools.product((False, True), repeat=2):
                    if tier != "thorough" and (i + j + s + 2 * as_) % 2: continue
                    for n, e in (("shl", "a << b"), ("shr", "a >> b"), ("ashl", "a.ashl(b)"), ("ashr", "a.ashr(b)"), ("shl=", "a <<= b;"), ("shr=", "a >>= b;")):
                        if k1 != k2 and (n == "ashr" or n[-1] == "="): continue
                        o = [V(k1, w, s, *r1), V(k2, aw, as_, *r2)]
                        nm = "%s with a=%s, b=%s" % (e, rname(k1, w, s, *r1), rname(k2, aw, as_, *r2))
                        if n[-1] == "=": p = Probe(n, o, [o[0]], code=e, store="st(out, 0, a);", frame=False, first=[1], name=nm)
                        else: p = Probe(n, o, [op(k1, w, s and as_)], e, first=[1], name=nm)
                        p.kinds = K("C11" if n[0] == "a" else "C10") if k1 == k2 else K("C31"); out.append(p)
    return out

def vt(k, w, s=False, asc=False, lo=0):
    n = "logic::logic" if k == "L" else "logic::bit"
    a, b = (lo, lo + w - 1) if asc else (lo + w - 1, lo)
    return "%s<%d,%d,%s>" % (n, a, b, "true" if s else "false")
def V(k, w, s=False, asc=False, lo=0):
    o = op(k, w, s); o["t"] = vt(k, w, s, asc, lo); return o

SEL_Q = [1, 4, 8, 9, 16, 20, 33, 64, 65, 100, 130, 200, 257]
SEL_T = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 192, 200, 256]
def selw(tier): return SEL_T if tier == "thorough" else SEL_Q

def bitsel(tier):
    out = []
    for w in selw(tier):
        for s in signs(w):
            for asc, lo in [(False, 0)] + (RANGES if w > 1 else RANGES[:1]):
                for k in "LB":
                    t = V(k, w, s, asc, lo)
                    nm = rname(k, w, s, asc, lo)
                    r = op(k, 1)
                    pp = dict(asc=int(asc), base=lo)
                    def sel(kind, ops, res, expr, name, cells=None, **q):
                        p = Probe(kind, ops, res, expr, first=[1] if len(ops) > 1 else None, p=dict(pp, **q), cells=cells, name=name)
                        p.kinds = K("C15"); out.append(p)
                    inr = index_cells(w, lo, 32, True)
                    sel("bitsel", [t, op("I", 32, True)], [r], "a[b]", "a[i] with a=%s, i=int" % nm, None if k == "L" else inr, **({"assume": 1} if k == "B" else {}))
                    if k == "L":
                        for n in "xz":
                            sel("is" + n, [t, op("I", 32, True)], [op("I", 1)], "a.%s_set(b)" % n, "a.%s_set(i) with a=%s, i=int" % (n, nm), inr, assume=1)
                    # an index that is a vector itself
                    need = max(1, (w - 1 + lo).bit_length())
                    for j, (ik, iw, is_) in enumerate((("L", 8, False), ("B", 9, False), ("L", 32, True), ("B", 16, True), ("L", 80, False), ("L", need + 1, True), ("B", 64, False), ("L", need, False), ("B", 100, False), ("L", max(2, need), True), ("B", max(2, need), True), ("L", 70, True), ("B", 70, True))):
                        if k == "B" and ik == "L": continue
                        if tier != "thorough" and (w + j + asc + lo + s) % 3 and (ik, iw) != ("L", 8): continue
                        if iw < 2 and is_: continue
                        rr = op("I", 1) if k == "B" else r
                        if k == "B":
                            cells = index_cells(w, lo, iw, is_)
                            sel("bitsel", [t, op(ik, iw, is_)], [rr], "a.get(b)", "a.get(b) with a=%s, b=%sbit[%d]" % (nm, "s" if is_ else "", iw), cells, assume=1)
                        else:
                            cells = [dict(id="all", ops=[{}, {}])] if iw <= 16 else [dict(id="low", ops=[{}, dict(v="win:0:9:0", m="zero")]), dict(id="mid", ops=[{}, dict(v="win:%d:6:1" % min(29, iw - 6), m="zero")]),
                                dict(id="top", ops=[{}, dict(v="win:%d:6:0" % (iw - 6), m="win:%d:3:0" % (iw - 3))]), dict(id="unk", ops=[{}, dict(v="win:0:4:0", m="win:0:4:0")])]
                            if is_ and iw > 16: cells.append(dict(id="neg", ops=[{}, dict(v="win:0:9:" + "f" * ((iw + 3) // 4), m="zero")]))
                            sel("bitsel", [t, op(ik, iw, is_)], [rr], "a.get(b)", "a.get(b) with a=%s, b=%s%s[%d]" % (nm, "s" if is_ else "", "logic" if ik == "L" else "bit", iw), cells)
                    for i in sorted({0, 1, w // 2, 63, 64, w - 2, w - 1, lo, lo + 1, lo + w - 1}):
                        if not (lo <= i < lo + w): continue
                        j = w - 1 - (i - lo) if asc else i - lo
                        if k == "L" or w <= 64:
                            sel("bitselc", [t], [r], "a.template get<%d>()" % i, "a.get<%d>() with a=%s" % (i, nm), i=j, asc=0)
                        if k == "L":
                            for n in "xz": sel("is%sc" % n, [t], [op("I", 1)], "a.template %s_set<%d>()" % (n, i), "a.%s_set<%d>() with a=%s" % (n, i, nm), i=j)
    return out

def slices(tier):
    out = []
    for w in selw(tier):
        if w == 1: continue
        for s in signs(w):
            for k in "LB":
                t = V(k, w, s)
                nm = "%s%s[%d:0]" % ("s" if s else "", "logic" if k == "L" else "bit", w - 1)
                rg = {(0, w), (0, 1), (w - 1, 1), (1, w - 1), (0, w - 1), (w // 3, max(1, w // 3))}
                if w > 64: rg |= {(60, min(8, w - 60)), (64, w - 64), (63, 2), (1, 64)}
                if w > 65: rg |= {(64, 1), (0, 65), (1, 65)}
                if w > 128: rg |= {(63, 66), (64, 64)}
                rg = sorted(x for x in rg if x[0] + x[1] <= w and x[1] > 0)
                for lo, n in rg:
                    hi = lo + n - 1
                    for e in ("a.template slice<%d,%d>()" % (hi, lo), "a.template slice<%du>(%d, %d)" % (n, hi, lo)):
                        p = Probe("slice", [t], [op(k, n)], e, p=dict(lo=lo), name="%s with a=%s" % (e.replace("template ", ""), nm))
                        p.kinds = K("C16"); out.append(p)
                e = "a.template slice<%d,%d>()" % (0, w - 1)
                for n in sorted({1, 2, w // 2, w - 1, min(w, 70)}):
                    if not 1 <= n <= w or w > 130 and n in (2, w - 1) and tier != "thorough": continue
                    for j, (asc, base) in enumerate([(False, 0)] + RANGES):
                        tr, nmr = V(k, w, s, asc, base), rname(k, w, s, asc, base)
                        for bk, bw, bs in (("L", 8, False), ("B", 9, False), ("L", 32, True), ("B", 16, True), ("L", 5, True)):
                            for up in (True, False):
                                if tier != "thorough" and (n + bw + up + j) % (3 if j else 2): continue
                                cells = index_cells(w, base, bw, bs, 0, n, up)
                                if base + w - 1 >= 1 << (bw - bs) or not cells: continue
                                p = Probe("slicerun", [tr, op(bk, bw, bs)], [op(k, n)], "a.template slice<%du, %s>(b)" % (n, "true" if up else "false"), first=[1], p=dict(up=int(up), asc=int(asc), base=base, assume=1),
                                          name="a[b %s: %d] with a=%s, b=%s%s[%d]" % ("+" if up else "-", n, nmr, "s" if bs else "", bk, bw), cells=cells)
                                p.kinds = K("C16"); out.append(p)
                # declared ranges other than [N-1:0]
                for asc, base in RANGES:
                    t2 = V(k, w, s, asc, base)
                    nm2 = rname(k, w, s, asc, base)
                    for lo, n in rg:
                        if max(lo, n) % 2 and tier != "thorough": continue
                        l, h = base + lo, base + lo + n - 1
                        pos = w - 1 - (h - base) if asc else lo
                        es = ["a.template slice<%d,%d>()" % ((l, h) if asc else (h, l)), "a.template slice<%du>(%d, %d)" % ((n, l, h) if asc else (n, h, l))]
                        for e in es:
                            p = Probe("slice", [t2], [op(k, n)], e, p=dict(lo=pos), name="%s with a=%s" % (e.replace("template ", ""), nm2))
                            p.kinds = K("C16"); out.append(p)
                # run-time bounds given as plain integers
                for n in sorted({1, w // 2, w - 1}):
                    if n < 1 or w > 130 and n == w - 1 and tier != "thorough": continue
                    for up in (True, False):
                        for j, (asc, base) in enumerate([(False, 0)] + RANGES):
                            if j > 1 and tier != "thorough" and (n + up + j) % 2: continue
                            p = Probe("slicerun", [V(k, w, s, asc, base), op("I", 32, True)], [op(k, n)], "a.template slice<%du>(b, b %s %d)" % (n, "+" if up else "-", n - 1), first=[1], p=dict(up=int(up), asc=int(asc), base=base, assume=1),
                                      name="a.slice<%d>(b, b%s%d) with a=%s, b=int" % (n, "+" if up else "-", n - 1, rname(k, w, s, asc, base)), cells=index_cells(w, base, 32, True, 0, n, up))
                            p.kinds = K("C16"); out.append(p)
    return out

def writes(tier):
    out = []
    def add(kind, ops, res, code, nm, first=None, p=None, cells=None, pr="C17", guard=False):
        q = Probe(kind, ops, res, code=code, store="st(out, 0, a);", frame=False, first=first, p=p, cells=cells, name=nm)
        q.kinds = K(pr)
        if guard: q.p = dict(q.p, assume=1)
        out.append(q)
    for w in selw(tier):
        for s in signs(w):
            for asc, lo in [(False, 0)] + (RANGES if w > 1 else RANGES[:1]):
                for k in "LB":
                    t = V(k, w, s, asc, lo)
                    nm = "a=" + rname(k, w, s, asc, lo)
                    pp = dict(asc=int(asc), base=lo)
                    ci = index_cells(w, lo, 32, True, 1)
                    add("setbit", [t, op("I", 32, True), op("I", 1)], [t], "a.set(b, c);", "a.set(i, bool) with " + nm, [1], pp, ci, guard=True)
                    add("setbit", [t, op("I", 32, True), op(k, 1)], [t], "a.set(b, c);", "a.set(i, %s) with %s" % ("logic" if k == "L" else "bit", nm), [1], pp, ci, guard=True)
                    for i in sorted({0, 1, w // 2, 63, 64, w - 1, lo, lo + 1, lo + w - 1}):
                        if not lo <= i < lo + w: continue
                        j = w - 1 - (i - lo) if asc else i - lo
                        add("update", [t, op("I", 1)], [t], "a.template set<%d>(b);" % i, "a.set<%d>(bool) with %s" % (i, nm), None, dict(lo=j, n=1))
                        for v in (0, 1):
                            q = Probe("update", [t, op("I", 1)], [t], code="a.template set<%d, %s>();" % (i, "true" if v else "false"), store="st(out, 0, a);", frame=False, p=dict(lo=j, n=1), cells=[dict(id="c", ops=[{}, dict(v="ones" if v else "zero")])], name="a.set<%d,%d>() with %s" % (i, v, nm))
                            q.kinds = K("C17"); out.append(q)
                        if k == "L":
                            for x in ("x", "z"):
                                add("set" + x, [t], [t], "a.template set_%s<%d>();" % (x, i), "a.set_%s<%d>() with %s" % (x, i, nm), None, dict(i=j))
                                add("set" + x, [t], [t], "a.set_%s(%d);" % (x, i), "a.set_%s(%d) with %s" % (x, i, nm), None, dict(i=j))
        if w == 1: continue
        for s in signs(w):
            for k in "LB":
                t = V(k, w, s)
                nm = "a=%s%s[%d:0]" % ("s" if s else "", "logic" if k == "L" else "bit", w - 1)
                rg = {(0, w), (w - 1, 1), (1, w - 1), (0, w - 1), (w // 3, max(1, w // 3))}
                if w > 64: rg |= {(60, min(8, w - 60)), (64, w - 64), (63, 2)}
                if w > 128: rg |= {(63, 66)}
                rg = sorted(x for x in rg if x[0] + x[1] <= w and x[1] > 0)
                for n_, (lo, n) in enumerate(rg):
                    hi = lo + n - 1
                    for sw in (n, max(1, n - 1), n + 3):
                        if tier != "thorough" and sw != n and (n_ + sw) % 3: continue
                        b = op(k, sw, False)
                        for e in ("a.template update<%d,%d>(b);" % (hi, lo), "a.update(%d, %d, b);" % (hi, lo), "a.template slice_ref<%d,%d>() = b;" % (hi, lo), "a.slice_ref(%d, %d) = b;" % (hi, lo)):
                            if tier != "thorough" and sw != n and "ref" in e: continue
                            add("update", [t, b], [t], e, "%s with %s, b=%s[%d]" % (e.replace("template ", ""), nm, k, sw), None, dict(lo=lo, n=n))
                # declared ranges other than [N-1:0], of the target and of the source
                for n_, ((asc, base), (asc2, base2)) in enumerate(itertools.product([(False, 0)] + RANGES, repeat=2)):
                    if n_ == 0: continue
                    t2 = V(k, w, s, asc, base)
                    nm2 = "a=" + rname(k, w, s, asc, base)
                    for lo, n in rg:
                        l, h = base + lo, base + lo + n - 1
                        pos = w - 1 - (h - base) if asc else lo
                        for sw in (n, max(1, n - 1), n + 3, n + 64):
                            if tier != "thorough" and (n_ + sw + lo + s) % 7: continue
                            b = V(k, sw, False, asc2, base2)
                            for j, e in enumerate(("a.template update<%d,%d>(b);", "a.update(%d, %d, b);", "a.template slice_ref<%d,%d>() = b;", "a.slice_ref(%d, %d) = b;")):
                                if tier != "thorough" and (n_ + j + n) % 2: continue
                                e = e % ((l, h) if asc else (h, l))
                                add("update", [t2, b], [t2], e, "%s with %s, b=%s" % (e.replace("template ", ""), nm2, rname(k, sw, False, asc2, base2)), None, dict(lo=pos, n=n))
                for n in sorted({1, w // 2, w - 1}):
                    if n < 1 or w > 130 and n == w - 1 and tier != "thorough": continue
                    for up, (j, (asc, base)) in itertools.product((True, False), enumerate([(False, 0)] + RANGES)):
                        if j and tier != "thorough" and (n + w + up + j + s) % 3: continue
                        tr, nmr, pp = V(k, w, s, asc, base), "a=" + rname(k, w, s, asc, base), dict(n=n, up=int(up), asc=int(asc), base=base)
                        add("updaterun", [tr, op("I", 32, True), op(k, n)], [tr], "a.update(b, b %s %d, c);" % ("+" if up else "-", n - 1), "a.update(b, b%s%d, c) with %s, c=%s[%d]" % ("+" if up else "-", n - 1, nmr, k, n), [1], pp, index_cells(w, base, 32, True, 1, n, up), guard=True)
                        for bk, bw, bs in (("L", 9, False), ("B", 10, False), ("L", 16, True), ("B", 7, True)):
                            if tier != "thorough" and (bw + n + up) % 2: continue
                            if base + w - 1 >= 1 << (bw - bs) or not index_cells(w, base, bw, bs, 1, n, up): continue
                            add("updaterun", [tr, op(bk, bw, bs), op(k, n)], [tr], "a.template slice_ref<%du, %s>(b) = c;" % (n, "true" if up else "false"), "a[b %s: %d] = c with %s, b=%s%s[%d]" % ("+" if up else "-", n, nmr, "s" if bs else "", bk, bw), [1], pp, index_cells(w, base, bw, bs, 1, n, up), guard=True)
    return out

CAT_Q = [(4, 4), (1, 7), (3, 5), (5, 20), (20, 12), (8, 56), (20, 44), (32, 32), (33, 31), (20, 45), (1, 64), (64, 1), (64, 64), (64, 65), (100, 28), (20, 100), (65, 3), (70, 130), (130, 127), (200, 57), (128, 192)]
CAT_T = CAT_Q + [(1, 1), (2, 1), (7, 9), (8, 8), (16, 16), (15, 17), (31, 1), (31, 33), (63, 1), (1, 63), (40, 23), (40, 24), (40, 25), (63, 65), (127, 1), (128, 128), (129, 63), (100, 100)]
def concats(tier):
    out = []
    for i, (x, y) in enumerate(CAT_T if tier == "thorough" else CAT_Q):
        for s1, s2 in itertools.product(signs(x), signs(y)):
            if tier != "thorough" and s1 != s2 and i % 2: continue
            for k1, k2 in (("L", "L"), ("B", "B"), ("L", "B")):
                p = Probe("concat", [T(k1, x, s1), T(k2, y, s2)], [op("L" if k1 == "L" or k2 == "L" else "B", x + y)], "a.concat(b)")
                p.kinds = K("C18"); out.append(p)
            if s1 == s2:
                p = Probe("concat", [T("L", x, s1), T("L", y, s2)], [op("L", x + y)], "logic::concat(a, b)")
                p.kinds = K("C18"); out.append(p)
    for tr in [(4, 4, 4), (1, 2, 3), (8, 16, 40), (20, 30, 40), (60, 5, 70), (1, 64, 64), (33, 31, 1)]:
        for k in "LB":
            p = Probe("concat", [T(k, w, False) for w in tr], [op(k, sum(tr))], "a.concat(b, c)")
            p.kinds = K("C18"); out.append(p)
    for tr in [(4, 4, 4), (1, 7), (8, 8), (20, 44), (20, 100), (65, 66), (32, 32)]:
        for i, (r1, r2) in enumerate(itertools.product([(False, 0)] + RANGES, repeat=2)):
            if i == 0 or tier != "thorough" and (i + sum(tr)) % 3: continue
            for k1, k2 in (("L", "L"), ("B", "B"), ("L", "B")):
                for s in (False, True):
                    ops = [V(k1 if j % 2 == 0 else k2, w, s and w > 1, *((r1, r2)[j % 2])) for j, w in enumerate(tr)]
                    p = Probe("concat", ops, [op("L" if "L" in (k1, k2) else "B", sum(tr))], "a.concat(%s)" % ", ".join("bcd"[:len(tr) - 1]))
                    p.text = "%s with %s" % (p.expr, ", ".join(rname(o["k"], o["w"], o["s"], *((r1, r2)[j % 2])) for j, o in enumerate(ops)))
                    p.kinds = K("C18"); out.append(p)
    for tr in [(4, 4, 4), (1, 7), (8, 16, 40), (20, 100), (65, 66), (64, 64)]:
        for r in [(False, 0)] + RANGES:
            for r2 in ((False, 0), (True, 0), (False, 3)):
                for k, k2 in (("L", "L"), ("B", "B"), ("B", "L")):
                    if (r, r2) == ((False, 0), (False, 0)) and k == k2: continue
                    names = "bcdef"[:len(tr)]
                    ops = [V(k, sum(tr), False, *r)] + [V(k2, w, False, *r2) for w in tr]
                    p = Probe("unpack", ops, [V(k2, w, False, *r2) for w in tr], code="a.unpack(%s);" % ", ".join(names), store=" ".join("st(out, %d, %s);" % (i, n) for i, n in enumerate(names)), frame=False,
                              name="a.unpack(%s) with a=%s" % (", ".join(rname(k2, w, False, *r2) for w in tr), rname(k, sum(tr), False, *r)))
                    p.kinds = K("C18"); out.append(p)
    # parts that do not add up to the width: the upper bits are dropped, missing ones read 0
    for w, tr in [(12, (4, 4)), (10, (4, 4, 4)), (70, (5, 60)), (70, (5, 64, 3)), (130, (64, 64)), (64, (33, 33)), (9, (8, 8))]:
        for k, k2 in (("L", "L"), ("B", "B"), ("B", "L")):
            names = "bcdef"[:len(tr)]
            p = Probe("unpack", [T(k, w, False)] + [T(k2, x, False) for x in tr], [op(k2, x) for x in tr], code="a.unpack(%s);" % ", ".join(names), store=" ".join("st(out, %d, %s);" % (i, n) for i, n in enumerate(names)), frame=False,
                      p=dict(total=sum(tr)), name="a.unpack(%s) with a=%s[%d]" % (", ".join("%s[%d]" % (k2, x) for x in tr), k, w))
            p.kinds = K("C18"); out.append(p)
    # unpack: total width first, then parts (previous contents irrelevant)
    for tr in [(4, 4, 4), (1, 2), (6, 1), (1, 6), (8, 16, 40), (20, 30, 40), (60, 5, 70), (64, 64), (1, 64, 64), (33, 31, 1), (100, 20), (20, 100), (65, 66)]:
        for s in (False, True):
            for k in "LB":
                if s and tier != "thorough" and len(tr) > 2: continue
                names = "bcdef"[:len(tr)]
                ops = [T(k, sum(tr), False)] + [T(k, w, s and w > 1) for w in tr]
                p = Probe("unpack", ops, [op(k, w, s and w > 1) for w in tr], code="a.unpack(%s);" % ", ".join(names), store=" ".join("st(out, %d, %s);" % (i, n) for i, n in enumerate(names)), frame=False,
                          name="a.unpack(%s) with a=%s[%d]" % (", ".join("%s[%d]" % (k, w) for w in tr), k, sum(tr)))
                p.kinds = K("C18"); out.append(p)
    return out

def conversions(tier):
    out = []
    def tn(k, w, s, asc=False, lo=0): return vt(k, w, s, asc, lo)
    for i, w in enumerate((1, 8, 20, 33, 64, 65, 130)):
        for s in signs(w):
            for k in "LB":
                for j, r in enumerate(RANGES if w > 1 else RANGES[:1]):
                    def radd(pr, kind, ops, res, e=None, code=None, nm=None, store=None):
                        q = Probe(kind, ops, res, e, code=code, frame=store is None, store=store)
                        q.text = "%s with a=%s" % (nm or e, rname(k, w, s, *r)); q.kinds = K(pr); out.append(q)
                    t = V(k, w, s, *r)
                    for x in (w, w + 3, w + 64): radd("C14", "convert", [t], [op(k, x, s)], "a.template extend<%d>()" % x)
                    radd("C14", "reinterpret", [t], [op(k, w, True)], "a.to_signed()")
                    radd("C14", "reinterpret", [t], [op(k, w, False)], "a.to_unsigned()")
                    for x in (w, w + 5, max(1, w - 3), 100):
                        for s2 in signs(x):
                            if tier != "thorough" and (x + s2 + i + j) % 2: continue
                            radd("C14", "assign", [t, op(k, x, s2)], [t], code="a = b;", nm="a = b, b=%s%s[%d]" % ("s" if s2 else "", k, x), store="st(out, 0, a);")
                            radd("C14", "assign", [op(k, x, s2), t], [op(k, x, s2)], code="a = b;", nm="b = a, b=%s%s[%d]" % ("s" if s2 else "", k, x), store="st(out, 0, a);")
                    if k == "L":
                        radd("C14", "convert", [t], [op(k, w, s)], code="logic::logic<%d,0,%s> r(a);" % (w - 1, "true" if s else "false"), nm="logic[N-1:0](a)")
                        radd("C14", "convert", [op(k, w, s)], [t], code="%s r(a);" % t["t"], nm="a(logic[N-1:0])")
                        radd("C19", "convert", [op("B", w, s)], [t], code="%s r(a);" % t["t"].replace("bit", "logic"), nm="a(bit)") if False else None
                    else:
                        radd("C19", "convert", [t], [V("L", w, s, *r)], code="%s r(a);" % vt("L", w, s, *r), nm="logic(a)")
                    if w <= 64:
                        radd("C20", "tonum", [t], [op("I", 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64, s)], "a.to_num()")
                    radd("C20", "touint64", [t], [op("I", 64)], "a.to_uint64()")
                    radd("C19", "default", [], [t], code="%s r;" % t["t"], nm="default")
                    for nt, nw, ns in (("uint64_t", 64, False), ("int", 32, True), ("bool", 1, False)):
                        if nt == "bool" and w != 1: continue
                        radd("C19", "assign", [t, op("I", nw, ns)], [t], code="a = b;", nm="a = " + nt, store="st(out, 0, a);")
                        radd("C19", "convert", [op("I", nw, ns)], [t], code="%s r(a);" % t["t"], nm="a(%s)" % nt)
                    if w > 1:
                        for n in ("r_and", "r_nand", "r_or", "r_nor", "r_xor", "r_xnor"):
                            radd("C02", n, [t], [op("L", 1) if k == "L" else op("I", 1)], "a.%s()" % n)
                        if k == "B":
                            for n, rw in (("any_set", 1), ("all_set", 1), ("popcount", 64)): radd("C02", n, [t], [op("I", rw)], "a.%s()" % n)
                        radd("C01", "not", [t], [op(k, w, False)], "~a")
                        radd("C20", "tobool", [t], [op("I", 1)], "static_cast<bool>(a)")
                        for n, e in (("neg", "-a"), ("plus", "+a"), ("preinc", "++a"), ("postdec", "a--")):
                            two = n in ("preinc", "postdec")
                            rt = t if n == "preinc" else op(k, w, s)
                            radd("C04", n, [t], [rt, t] if two else [rt], None if two else e, code="auto r = %s;" % e if two else None, nm=e, store="st(out, 0, r); st(out, 1, a);" if two else None)
    # four-state and two-state vectors from signed ones of another width, and literals
    for k in "LB":
        for w, x in ((20, 8), (8, 20), (65, 20), (20, 65), (130, 65), (64, 64), (1, 8), (33, 32)):
            for s in signs(w):
                q = Probe("convert", [op(k, x, True)], [op(k, w, s)], code="%s<%d,%s> r(a);" % (k, w, "true" if s else "false"), name="%s%s[%d](signed %s[%d])" % ("s" if s else "", k, w, k, x)); q.kinds = K("C14"); out.append(q)
    for lit, nw, rw in (("_logic", 64, 32), ("_logic64", 64, 64), ("_bit", 64, 32), ("_bit64", 64, 64)):
        q = Probe("convert", [op("I", 64, False)], [op("L" if "logic" in lit else "B", rw, True)], code="auto r = logic::literals::operator\"\"%s(a);" % lit, name="literal 123%s" % lit); q.kinds = K("C19"); out.append(q)
    for e, v, m in (("x_", 0, 1), ("one_", 1, 0), ("zero_", 0, 0)):
        for w in (1, 20, 70):
            q = Probe("const", [], [op("L", 1)], "logic::logic<%d>::%s()" % (w - 1, e), p=dict(v=v, m=m)); q.kinds = K("C19"); out.append(q)
    for w in (1, 20, 70):
        q = Probe("const", [], [op("B", 1)], "logic::bit<%d>::one_()" % (w - 1), p=dict(v=1, m=0)); q.kinds = K("C19"); out.append(q)
    def add(pr, kind, ops, res, expr=None, code=None, nm=None, p=None, frame=True, store=None):
        q = Probe(kind, ops, res, expr, code=code, name=nm, p=p, frame=frame, store=store)
        q.kinds = K(pr); out.append(q)
    ws = [1, 4, 8, 9, 16, 20, 32, 33, 63, 64, 65, 100, 128, 130, 192, 200, 257] if tier != "thorough" else SEL_T
    tgt = [8, 20, 32, 64, 65, 128, 200, 257] if tier != "thorough" else [2, 5, 8, 16, 20, 32, 33, 64, 65, 100, 127, 128, 129, 192, 200, 256]
    for w in ws:
        for s in signs(w):
            for k in "LB":
                for t in tgt + [w]:
                    if t >= w: add("C14", "convert", [T(k, w, s)], [op(k, t, s and True)], "a.template extend<%d>()" % t)
                    elif k == "B": add("C14", "convert", [T(k, w, s)], [op(k, t, s)], "a.template extend<%d>()" % t)
                add("C14", "reinterpret", [T(k, w, s)], [op(k, w, True)], "a.to_signed()")
                add("C14", "reinterpret", [T(k, w, s)], [op(k, w, False)], "a.to_unsigned()")
                for t in tgt + [w, 5, 40]:
                    for s2 in signs(t):
                        add("C14", "assign", [T(k, t, s2), T(k, w, s)], [op(k, t, s2)], code="a = b;", store="st(out, 0, a);", frame=False, nm="a = b with a=%s%s[%d], b=%s%s[%d]" % ("s" if s2 else "", k, t, "s" if s else "", k, w))
            # two-state to four-state, to numbers
            add("C19", "convert", [T("B", w, s)], [op("L", w, s)], code="logic::logic<%d,0,%s> r(a);" % (w - 1, "true" if s else "false"), nm="logic(bit) with a=%sbit[%d]" % ("s" if s else "", w))
            add("C19", "convert", [T("B", w, s)], [op("L", w, s)], code="logic::logic<%d,0,%s> r = a;" % (w - 1, "true" if s else "false"), nm="logic = bit (init) with a=%sbit[%d]" % ("s" if s else "", w))
            add("C19", "assign", [T("L", w, s), T("B", w, s)], [op("L", w, s)], code="a = b;", store="st(out, 0, a);", frame=False, nm="a = b with a=%slogic[%d], b=%sbit[%d]" % ("s" if s else "", w, "s" if s else "", w))
            for k in "LB":
                if w <= 64:
                    nat = 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64
                    add("C20", "tonum", [T(k, w, s)], [op("I", nat, s)], "a.to_num()")
                add("C20", "touint64", [T(k, w, s)], [op("I", 64)], "a.to_uint64()")
                add("C19", "default", [], [op(k, w, s)], code="%s<%d,%s> r;" % (k, w, "true" if s else "false"), nm="default %s%s[%d]" % ("s" if s else "", k, w))
                for nt, nw, ns in (("uint64_t", 64, False), ("int", 32, True), ("int64_t", 64, True), ("uint8_t", 8, False), ("uint32_t", 32, False), ("bool", 1, False)):
                    if nt == "bool" and w != 1: continue
                    add("C19", "assign", [T(k, w, s), op("I", nw, ns)], [op(k, w, s)], code="a = b;", store="st(out, 0, a);", frame=False, nm="a = b with a=%s%s[%d], b=%s" % ("s" if s else "", k, w, nt))
                    if k == "L":
                        add("C19", "convert", [op("I", nw, ns)], [op(k, w, s)], code="%s<%d,%s> r(a);" % (k, w, "true" if s else "false"), nm="%s%s[%d](%s)" % ("s" if s else "", k, w, nt))
                    elif k == "B":
                        add("C19", "convert", [op("I", nw, ns)], [op(k, w, s)], code="%s<%d,%s> r(a);" % (k, w, "true" if s else "false"), nm="%s%s[%d](%s)" % ("s" if s else "", k, w, nt))
    return out


ALTS = dict(b="01xXzZ", o="01234567xXzZ", h="0123456789abcdefABCDEFxXzZ", d="0123456789")
def lit(prefix, text, alts):
    """characters of a literal: '?' in text is any digit of the base"""
    return [c for c in prefix] + [alts if c == "?" else c for c in text]
PW_Q = [1, 2, 3, 4, 5, 8, 9, 16, 17, 20, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 192, 200, 257]
PW_T = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 24, 31, 32, 33, 48, 60, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 192, 200, 256, 257, 320]
def parse(tier):
    out = []
    def add(pr, k, w, s, base, prefix, text, alts, start):
        ch = lit(prefix, text, alts)
        o = dict(k="C", w=0, s=False, n=len(ch))
        p = Probe("parse", [o], [op(k, w, s)], code="%s<%d,%s> r(a);" % (k, w, "true" if s else "false"), p=dict(start=start), ps=dict(base=base), frame=False,
                  cells=[dict(id="t", ops=[dict(chars=ch)])], name="%s%s[%d] from \"%s%s\" (? is any digit)" % ("s" if s else "", "logic" if k == "L" else "bit", w, prefix, text if len(text) < 60 else text[:60] + "..."))
        p.kinds = K(pr); out.append(p)
    big = tier == "thorough"
    for w in (8, 33, 70):
        for k in "LB":
            for r in RANGES:
                for s in (False, True):
                    for base, n in (("b", w), ("h", w // 4 + 1), ("o", w // 3)):
                        a2 = ALTS[base] if k == "L" else ALTS[base].translate({ord(c): None for c in "xXzZ"})
                        ch = lit("'" + base, "?" * n, a2)
                        p = Probe("parse", [dict(k="C", w=0, s=False, n=len(ch))], [V(k, w, s, *r)], code="%s r(a);" % vt(k, w, s, *r), p=dict(start=2), ps=dict(base=base), frame=False,
                                  cells=[dict(id="t", ops=[dict(chars=ch)])], name="%s from '%s and %d digits" % (rname(k, w, s, *r), base, n))
                        p.kinds = K("C21"); out.append(p)
    for w in (PW_T if big else PW_Q):
        for s in signs(w):
            for k in "LB":
                for base, st in (("b", 1), ("o", 3), ("h", 4)):
                    if s and not big and base != "h": continue
                    alts = ALTS[base] if k == "L" else ALTS[base].translate({ord(c): None for c in "xXzZ"})
                    nat = (w + st - 1) // st
                    ns = {1, nat, nat + 1, max(1, nat - 1), nat + 3}
                    if big: ns |= {2, 64 // st, 64 // st + 1, nat + 64 // st + 2}
                    elif w >= 64 or k == "L": ns |= {64 // st + 2}
                    for i, n in enumerate(sorted(ns)):
                        pre = ("'%s" % base) if i % 2 else ("%d'%s" % (w, base.upper()))
                        add("C21", k, w, s, base, pre, "?" * n, alts, len(pre))
                    for n, us in ((nat, {1}), (nat, {4, 9, 10}), (nat + 2, {2, 3, 17}), (nat, set(range(1, nat, 2)))):
                        if us - {x for x in us if x < n} == us or not us: continue
                        t = "".join(("_" if i in us else "") + "?" for i in range(n))
                        add("C21", k, w, s, base, "'" + base, t, alts, 2)
                # decimal: a window of free digits in texts of every length
                maxd = len(str(2 ** w)) + (3 if w < 64 else 2)
                lens = sorted({1, 2, min(4, maxd), maxd // 2 + 1, max(1, maxd - 2), maxd}) if big else sorted({1, max(1, maxd - 2), maxd})
                for n in lens:
                    for at in sorted({0, max(0, n - 3), n // 2, max(0, n - 21)}):
                        if at >= n: continue
                        if not big and s and at: continue
                        m = min(3, n - at)
                        bg = ("1844674407370955161598765432109" * 4)[:n]
                        t = bg[:at] + "?" * m + bg[at + m:]
                        if n > 4 and at == 0: t = t[:n - 3] + "_" + t[n - 3:]
                        pre = ("'d", "100'D")[n % 2]
                        add("C22", k, w, s, "d", pre, t, ALTS["d"], len(pre))
                if not s:
                    nb = (w + 7) // 8
                    for n in sorted({1, nb, nb + 1, max(1, nb - 1)}):
                        add("C24", k, w, s, "s", "", "?" * n, "A _z09~!@\x7fqQ\x01%", 0)
    return out

def strs(tier):
    out = []
    for w in (8, 33, 70, 130):
        for k in "LB":
            for r in RANGES:
                for s in (False, True):
                    for base in "box":
                        p = Probe("str", [V(k, w, s, *r)], [dict(k="S")], 'a.str("%s")' % base, p=dict(req=-1), ps=dict(base=base), name='a.str("%s") with a=%s' % (base, rname(k, w, s, *r)))
                        p.kinds = K("C23"); out.append(p)
    def add(pr, k, w, s, fmt, base, req, cells=None):
        call = "a.str(%s)" % ('"%s"' % fmt if fmt is not None else "")
        p = Probe("str", [T(k, w, s)], [dict(k="S")], call, p=dict(req=req), ps=dict(base=base), cells=cells, name="%s with a=%s%s[%d]" % (call, "s" if s else "", "logic" if k == "L" else "bit", w))
        p.kinds = K(pr); out.append(p)
    big = tier == "thorough"
    for w in (PW_T if big else PW_Q):
        for s in signs(w):
            if s and not big and w not in (8, 20, 64, 100): continue
            for k in "LB":
                for base, st in (("b", 1), ("o", 3), ("h", 4), ("x", 4)):
                    nat = (w + st - 1) // st
                    add("C23", k, w, s, base, base, -1)
                    if base == "b": add("C23", k, w, s, None, base, -1)
                    if base in "oxh" and (big or not s): add("C23", k, w, s, base.upper(), base, -1)
                    for req in sorted({0, 1, nat, nat + 1, nat + 9}):
                        if not big and req in (1, nat) and w not in (9, 100): continue
                        cells = None
                        if req == 0 and w > 64 and k == "L":  # the position of the first digit depends on every bit above it
                            cells = [dict(id="known", ops=[dict(m="zero")])] + [dict(id="top%d" % at, ops=[dict(v="win:%d:24:0" % at, m="win:%d:24:0" % at)]) for at in (0, w - 24, 50)]
                        if req == 0 and w > 130 and base == "b":
                            m = dict(m="zero") if k == "L" else {}
                            cells = [c for c in cells or [] if c["id"] != "known"] + [dict(id="v%d" % at, ops=[dict(v="win:%d:70:0" % min(at, w - 70), **m)]) for at in range(0, w - 5, 64)]
                        add("C24", k, w, s, "%d%s" % (req, base), base, req, cells)
                nb = (w + 7) // 8
                if not s or big:
                    cs = [dict(id="known", ops=[dict(m="zero")])]
                    for req in (None, 0, 1, nb, nb + 3):
                        add("C24", k, w, s, "%ss" % ("" if req is None else req), "s", -1 if req is None else req, cs)
    return out

def decimals(tier):
    out = []
    def add(pr, k, w, s, fmt, req, cells):
        p = Probe("str", [T(k, w, s)], [dict(k="S")], 'a.str("%s")' % fmt, p=dict(req=req), ps=dict(base="d"), cells=cells, name='a.str("%s") with a=%s%s[%d]' % (fmt, "s" if s else "", "logic" if k == "L" else "bit", w))
        p.kinds = K(pr); out.append(p)
    big = tier == "thorough"
    for w in (PW_T if big else [1, 4, 8, 9, 17, 20, 32, 33, 64, 65, 66, 100, 128, 130, 200]):
        for s in signs(w):
            for k in "LB":
                cells = []
                n = min(w, 8)
                bgs = ["0", "f" * ((w + 3) // 4), ("1f9a3c" * 20)[:max(1, w // 4)]]
                for at in sorted({0, max(0, w - n), max(0, min(60, w - n))}):
                    for bg in bgs: cells.append(dict(id="w%d%s" % (at, bg[:2]), ops=[dict(v="win:%d:%d:%s" % (at, n, bg), m="zero")]))
                # around the powers of ten at which implementations that print in groups of digits switch groups
                for e in (9, 10, 18, 19, 20, 36, 38):
                    v = 10 ** e
                    if w >= 20 and v.bit_length() <= w - (1 if s else 0):
                        cells.append(dict(id="e%d" % e, ops=[dict(v="win:0:%d:%x" % (n, v), m="zero")]))
                        cells.append(dict(id="E%d" % e, ops=[dict(v="win:%d:%d:%x" % (w - n, n, v), m="zero")]))
                for at in range(60, w - n, 64):
                    cells.append(dict(id="b%d" % at, ops=[dict(v="win:%d:%d:%s" % (at, n, bgs[2]), m="zero")]))
                if w <= 10: cells = [dict(id="all", ops=[dict(m="zero")])]
                xc = [dict(id="unknown", ops=[dict(v="win:0:4:0", m="win:%d:%d:%s" % (max(0, w - 4), min(4, w), b)), ]) for b in ("0", "f" * ((w + 3) // 4))]
                nat = len(str(2 ** w))
                for fmt, req in (("0d", 0), ("d", -1), ("D", -1), ("%dd" % (nat + 4), nat + 4), ("1d", 1)):
                    if not big and fmt in ("D", "1d") and w not in (9, 65): continue
                    if not big and req and w > 10: cells = [c for c in cells if c["id"][0] == "w"][:4]
                    add("C32" if req == 0 else "C24", k, w, s, fmt, req, cells + (xc if k == "L" else []))
    return out

ARR_Q = [(8, 4), (16, 10), (1, 5), (5, 7), (20, 3), (64, 2), (33, 4), (65, 3), (100, 2), (4, 16), (16, 20), (8, 40)]
ARR_T = ARR_Q + [(7, 9), (3, 21), (13, 5), (32, 4), (63, 3), (16, 4), (16, 8), (2, 32), (128, 2), (130, 3), (24, 10), (9, 1), (64, 5), (33, 10), (5, 60), (65, 5)]
def arrays(tier):
    out = []
    big = tier == "thorough"
    def pa(k, ew, n, base, s=False, asc=False):
        o = op(k, ew * n, s)
        r = (base, base + n - 1) if asc else (base + n - 1, base)
        o["t"] = "logic::packed_array<%s<%d,%s>,%d,%d>" % (k, ew, "true" if s else "false", *r)
        return o, "%s[%d] array[%d:%d]" % ("logic" if k == "L" else "bit", ew, *r)
    for j, (ew, n) in enumerate(ARR_T if big else ARR_Q):
        for k in "LB":
            for base, asc in ((0, False), (4, False), (0, True), (-2, False), (3, True)):
                if not big and (base or asc) and (j + base + asc) % 2: continue
                if asc and n == 1: continue
                for s in ((False, True) if ew > 1 and (big or j % 3 == 0 and not asc) else (False,)):
                    t, nm = pa(k, ew, n, base, s, asc)
                    need = (base + n - 1).bit_length()
                    idx = [(3, False), (8, False), (8, True), (32, True), (64, True), (64, False), (100, False), (80, True), (max(1, need), False), (max(2, need), True)]
                    if not big: idx = [x for i, x in enumerate(idx) if (i + j + base) % 3 == 0 or x[0] in (8, 100)]
                    for iw, is_ in dict.fromkeys(idx):
                        b = op("L", iw, is_)
                        pp = dict(ew=ew, n=n, base=base, asc=int(asc))
                        cells = None
                        if iw >= 32:
                            one = "f" * (iw // 4)
                            cells = [dict(id=c, ops=[{}, dict(v=v, m=m)]) for c, v, m in (("low", "win:0:9:0", "zero"), ("mid", "win:%d:6:0" % min(29, iw - 6), "zero"), ("mid2", "win:%d:6:1" % min(29, iw - 6), "zero"), ("top", "win:%d:5:0" % (iw - 5), "zero"),
                                ("neg", "win:0:9:" + one, "zero"), ("low3", "win:0:3:0", "win:%d:4:0" % (iw - 4)), ("unk", "win:0:4:0", "win:0:4:0")) + ((("word", "win:62:6:2", "zero"),) if iw > 68 else ())]
                        q = Probe("arrget", [t, b], [op(k, ew)], "a[b]", first=[1], p=pp, cells=cells, name="a[b] with a=%s%s, b=%slogic[%d]" % ("s" if s else "", nm, "s" if is_ else "", iw))
                        q.kinds = K("C25"); out.append(q)
                        for vw, vs in ((ew, s), (ew, False), (ew + 3, False), (max(1, ew - 1), False)):
                            if vw != ew and (not big and iw != 8 or s): continue
                            q = Probe("arrset", [t, b, op(k, vw, vs)], [t], code="a.update(b, c);", store="st(out, 0, a);", frame=False, first=[1], p=pp, cells=cells,
                                      name="a.update(b, c) with a=%s%s, b=%slogic[%d], c=%s%s[%d]" % ("s" if s else "", nm, "s" if is_ else "", iw, "s" if vs else "", "logic" if k == "L" else "bit", vw))
                            q.kinds = K("C25"); out.append(q)
                    for lo, m in sorted({(0, n), (0, 1), (n - 1, 1), (n // 2, max(1, n - n // 2 - 1)), (1, n - 1)}):
                        if m < 1 or lo + m > n: continue
                        at = n - lo - m if asc else lo
                        bounds = (base + lo, base + lo + m - 1) if asc else (base + lo + m - 1, base + lo)
                        e = "a.template slice_array<%d,%d>()" % bounds
                        q = Probe("slice", [t], [op(k, ew * m)], e, p=dict(lo=at * ew), name="%s with a=%s" % (e.replace("template ", ""), nm))
                        q.kinds = K("C25"); out.append(q)
                        for vw in (ew * m, ew * m + 5, max(1, ew * m - 1)):
                            if vw != ew * m and not big and (lo + m) % 2: continue
                            e = "a.template update<%d,%d>(b);" % bounds
                            q = Probe("update", [t, op(k, vw)], [t], code=e, store="st(out, 0, a);", frame=False, p=dict(lo=at * ew, n=ew * m), name="%s with a=%s, b[%d]" % (e.replace("template ", ""), nm, vw))
                            q.kinds = K("C25"); out.append(q)
    # unpacked arrays: every element is an operand
    for j, (ew, s) in enumerate([(8, False), (16, True), (1, False), (20, False), (65, True), (128, False), (33, False)]):
        for k in "LB":
            for n in (1, 2, 3, 5):
                for hi, lo in ((n - 1, 0), (0, n - 1), (n + 3, 4), (4, n + 3), (n - 3, -2)):
                    if hi == lo and (hi, lo) != (0, 0): continue
                    if not big and (j + n + hi) % 2: continue
                    base = min(hi, lo)
                    el = [op(k, ew, s) for _ in range(n)]
                    names = "abcdefgh"
                    decl = "logic::unpacked_array<%s<%d,%s>,%d,%d> arr;" % (k, ew, "true" if s else "false", hi, lo) + " ".join("arr.value[%d] = %s;" % (i, names[i]) for i in range(n))
                    nm = "%s%s[%d] array [%d:%d] (unpacked)" % ("s" if s else "", "logic" if k == "L" else "bit", ew, hi, lo)
                    q = Probe("uaget", el + [op("I", 32, True)], [op(k, ew, s)], code=decl + " auto const &r = arr[%s];" % names[n], frame=False, first=[n], p=dict(base=base), name="arr[i] with arr=%s, i=int" % nm)
                    q.kinds = K("C26"); out.append(q)
                    for idx in sorted({base - 1, base, base + n - 1, base + n, base + n // 2}):
                        for vw, vs in ((ew, s), (ew + 7, False), (max(1, ew - 3), False)):
                            if vw != ew and not big and idx != base: continue
                            i = idx - base
                            q = Probe("uaset", el + [op(k, vw, vs)], el, code=decl + " arr.template update<%d>(%s);" % (idx, names[n]), store=" ".join("st(out, %d, arr.value[%d]);" % (e, e) for e in range(n)), frame=False, p=dict(i=i if 0 <= i < n else -1),
                                      name="arr.update<%d>(v) with arr=%s, v=%s[%d]" % (idx, nm, "s" if vs else "", vw))
                            q.kinds = K("C26"); out.append(q)
    return out

def members(tier):
    """members of packed structs and unions: read and written through part selects of the shared vector"""
    out = []
    for layout in ([5, 5], [8, 8], [1, 7, 8], [20, 12], [30, 30, 40], [64, 1], [1, 64, 63], [100, 28], [16, 3, 64, 65]) + (([7, 9, 16, 32], [33, 31], [2, 3, 4, 5, 6], [128, 128], [1, 1, 1], [65, 65, 65]) if tier == "thorough" else ()):
        W = sum(layout)
        for tpl in ("packed_struct", "union_"):
            for k in "LB":
                t = op(k, W); t["t"] = "logic::%s<%d, %s>::type" % (tpl, W, "true" if k == "L" else "false")
                lo = 0
                for w in layout:
                    pos = lo if tpl[0] == "p" else 0
                    nm = "%s of %s bits %s, member [%d:%d]" % (tpl, layout, "four-state" if k == "L" else "two-state", pos + w - 1, pos)
                    q = Probe("slice", [t], [op(k, w)], "a.template slice<%d,%d>()" % (pos + w - 1, pos), p=dict(lo=pos), name="read " + nm)
                    q.kinds = K("C27"); out.append(q)
                    for vw in (w, w + 2):
                        q = Probe("update", [t, op(k, vw)], [t], code="a.template update<%d,%d>(b);" % (pos + w - 1, pos), store="st(out, 0, a);", frame=False, p=dict(lo=pos, n=w), name="write %s from %d bits" % (nm, vw))
                        q.kinds = K("C27"); out.append(q)
                    lo += w
                q = Probe("default", [], [op(k, W)], code="%s r;" % t["t"], name="default %s<%d> %s" % (tpl, W, k)); q.kinds = K("C27"); out.append(q)
                q = Probe("assign", [t, op(k, W + 3)], [t], code="a = b;", store="st(out, 0, a);", frame=False, name="%s<%d> %s = wider vector" % (tpl, W, k)); q.kinds = K("C27"); out.append(q)
    return out

def bignum(tier):
    """the multi-word number class used directly: its own overloads for other widths, native numbers and run-time amounts"""
    out = []
    big = tier == "thorough"
    def N(w, s=False): return dict(op("B", w, s), t="logic::big_num<%d,%s>" % (w, "true" if s else "false"))
    def nm(o): return ("%sbig_num<%d>" % ("s" if o["s"] else "", o["w"])) if o["k"] == "B" else ctype_(o)
    def add(pr, kind, ops, res, e=None, code=None, store=None, **kw):
        text = "%s with %s" % ((e or code).replace("template ", ""), ", ".join("%s=%s" % (n, nm(o)) for n, o in zip("abc", ops)))
        q = Probe(kind, ops, res, e, code=code, store=store, frame=store is None, name=text, **kw)
        q.kinds = K(pr, type=None, compile=None); q.internal = True; out.append(q)
        return q
    ws = [65, 100, 127, 128, 129, 192, 200, 20, 64] if not big else [65, 66, 72, 96, 100, 127, 128, 129, 130, 150, 191, 192, 193, 200, 255, 256, 257, 320, 8, 20, 33, 64, 1]
    pr2 = [(65, 65), (100, 100), (128, 128), (200, 200), (65, 128), (100, 140), (64, 100), (20, 130), (64, 128), (128, 200), (129, 192)]
    if big: pr2 += [(66, 66), (127, 127), (192, 192), (193, 193), (256, 256), (65, 66), (66, 257), (127, 129), (33, 65), (1, 128), (64, 192), (8, 200), (64, 65), (128, 129), (192, 200)]
    prs = []
    for x, y in pr2:
        for s1, s2 in itertools.product((False, True), repeat=2):
            if s1 and x <= 64 or s2 and y <= 64: continue
            prs.append((x, s1, y, s2))
            if x != y: prs.append((y, s2, x, s1))
    for i, (x, s1, y, s2) in enumerate(prs):
        a, b, r = N(x, s1), N(y, s2), N(max(x, y), s1 and s2)
        for sym, n in (("&", "and"), ("|", "or"), ("^", "xor")):
            add("C01", n, [a, b], [r], "a %s b" % sym)
            add("C01", n + "=", [a, b], [a], code="a %s= b;" % sym, store="st(out, 0, a);")
        for sym, n in (("+", "add"), ("-", "sub")): add("C04", n, [a, b], [r], "a %s b" % sym)
        if max(x, y) <= 140 or big and max(x, y) <= 200: 
            if min(x, y) >= 8: add("C05", "mul", [a, b], [r], "a * b", cells=mulcells(x, y, tier))
        for sym, n in (("==", "eq"), ("!=", "ne")): add("C07", n, [a, b], [op("I", 1)], "a %s b" % sym)
        for sym, n in (("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge")): add("C08", n, [a, b], [op("I", 1)], "a %s b" % sym)
        add("C18", "concat", [a, b], [N(x + y)], "a.concat(b)")
        if x != y and (big or i % 3 == 0 and max(x, y) <= 140):
            for sym, n in (("/", "div"), ("%", "mod")): add("C33", n, [a, b], [r], "a %s b" % sym, cells=widecells(x, y, False)[:8], p=dict(wide=1))
    for i, w in enumerate(ws):
        for s in ((False, True) if w > 64 else (False,)):
            a = N(w, s)
            add("C01", "not", [a], [a], "~a")
            add("C04", "neg", [a], [a], "-a"); add("C04", "neg", [a], [a], "a.negate()"); add("C04", "plus", [a], [a], "+a")
            for n, e in (("r_and", "a.r_and()"), ("r_xor", "a.r_xor()"), ("any_set", "a.any_set()"), ("all_set", "a.all_set()")): add("C02", n, [a], [op("I", 1)], e)
            add("C02", "popcount", [a], [op("I", 64)], "a.popcount()")
            add("C20", "tobool", [a], [op("I", 1)], "static_cast<bool>(a)")
            add("C20", "touint64", [a], [op("I", 64)], "a.to_uint64()")
            if w > 64: add("C14", "reinterpret", [a], [N(w, True)], "a.to_signed()")
            if w > 64: add("C14", "reinterpret", [a], [N(w, not s)], code="logic::big_num<%d,%s> r(a);" % (w, "false" if s else "true"))
            for t in sorted({w, w + 1, w + 40, w + 64, w + 130, max(1, w - 1), max(1, w - 40), max(1, w - 64)}):
                if s and t <= 64: continue
                add("C14", "convert", [a], [N(t, s)], "a.template extend<%d>()" % t)
            add("C19", "default", [], [a], code="logic::big_num<%d,%s> r;" % (w, "true" if s else "false"))
            for nt, nw, ns in (("uint64_t", 64, False), ("int", 32, True), ("int64_t", 64, True), ("uint8_t", 8, False)):
                if w > 64: add("C19", "convert", [op("I", nw, ns)], [a], code="logic::big_num<%d,%s> r(a);" % (w, "true" if s else "false"))
                for sym, n in (("==", "eq"), (">", "gt"), (">=", "ge"), ("<=", "le")):
                    if nw < 64 and ns: continue  # a native number becomes a vector of its own width first; narrow signed ones have no such form
                    if not big and (i + nw + len(n + sym)) % 2 and nw != 64: continue
                    add("C07" if n == "eq" else "C08", n, [a, op("I", nw, ns)], [op("I", 1)], "a %s b" % sym)
            need = max(1, (w - 1).bit_length())
            ci = [dict(id="in", ops=[{}, dict(v="win:0:%d:0" % need)])]
            add("C15", "bitsel", [a, op("I", 64)], [op("I", 1)], "a[b]", first=[1], cells=ci, p=dict(asc=0, base=0, assume=1))
            add("C17", "setbit", [a, op("I", 64), op("I", 1)], [a], code="a.set(b, c);", store="st(out, 0, a);", first=[1], cells=[dict(id="in", ops=[{}, dict(v="win:0:%d:0" % (need + 1)), {}])], p=dict(asc=0, base=0, assume=1))
            for j in sorted({0, 1, w // 2, 63, 64, w - 1}):
                if j >= w: continue
                add("C15", "bitselc", [a], [op("I", 1)], "a.template get<%d>()" % j, p=dict(i=j, asc=0))
                add("C17", "update", [a, op("I", 1)], [a], code="a.template set<%d>(b);" % j, store="st(out, 0, a);", p=dict(lo=j, n=1))
            rg = {(0, w), (0, 1), (w - 1, 1), (1, w - 1), (w // 3, max(1, w // 3))}
            if w > 64: rg |= {(60, min(8, w - 60)), (64, w - 64), (63, 2), (1, 64)}
            for lo, n in sorted(x for x in rg if x[0] + x[1] <= w and x[1] > 0):
                for e in ("a.template slice<%d,%d>()" % (lo + n - 1, lo), "a.template slice<%du>(%d, %d)" % (n, lo + n - 1, lo), "a.template slice<%du>(%d, %d)" % (n, lo, lo + n - 1)):
                    add("C16", "slice", [a], [N(n)], e, p=dict(lo=lo))
            if s: add("C04", "bitselc", [a], [op("I", 1)], "a.negative()", p=dict(i=w - 1, asc=0))
            for aw, as_ in ((8, False), (20, False), (64, False), (65, True), (w, s), (100, False), (130, True)):
                if as_ and aw <= 64: continue
                if not big and (i + aw) % 2: continue
                for n, e in (("shl", "a << b"), ("shr", "a >> b"), ("ashl", "a.ashl(b)"), ("ashr", "a.ashr(b)")):
                    add("C11" if n[0] == "a" else "C10", n, [a, N(aw, as_)], [N(w, s and as_)], e, first=[1])
            for n, e in (("shl", "a << b"), ("shr", "a >> b"), ("ashl", "a.ashl(b)"), ("ashr", "a.ashr(b)")):
                add("C11" if n[0] == "a" else "C10", n, [a, op("I", 64)], [a], e, first=[1])
    return out

SWEEP_Q = list(range(1, 137)) + [144, 150, 180, 191, 224, 255, 288, 319, 321, 384, 385, 450, 511, 512, 513]
SWEEP_T = list(range(1, 270)) + [288, 300, 319, 320, 321, 350, 383, 384, 385, 400, 447, 448, 449, 450, 500, 511, 512, 513, 575, 576, 577, 640, 641, 700, 768, 800, 900, 1000, 1023, 1024, 1025]
def sweep(tier):
    """every width: each operation at one combination of kinds and signedness, which changes from width to width"""
    out = []
    def h(*a): return int(hashlib.md5(repr(a).encode()).hexdigest(), 16)
    for w in (SWEEP_T if tier == "thorough" else SWEEP_Q):
        def add(pr, kind, ops, res, e=None, code=None, store=None, first=None, p=None, cells=None, name=None, ps=None, **kw):
            q = Probe(kind, ops, res, e, code=code, store=store, frame=store is None and (not ops or ops[0]["k"] != "C"), first=first, p=p, ps=ps, cells=cells)
            q.text = name or "%s with %s" % ((e or code).replace("template ", ""), ", ".join("%s=%s" % (n, rname(o["k"], o["w"], o["s"], False, 0) if o["k"] != "I" else ctype_(o)) for n, o in zip("abc", ops)))
            q.kinds = K(pr, **kw); out.append(q)
        def sg(x, *a): return x > 1 and h(w, *a) % 2 == 1
        ari = dict(mask="C03", xval="C03")
        for i, (sym, n, pr, kw) in enumerate((("&", "and", "C01", {}), ("|", "or", "C01", {}), ("^", "xor", "C01", {}), ("+", "add", "C04", ari), ("-", "sub", "C04", ari), ("*", "mul", "C05", ari), ("/", "div", "C06", ari), ("%", "mod", "C06", ari),
                                   ("==", "eq", "C07", {}), ("!=", "ne", "C07", {}), ("<", "lt", "C08", {}), (">", "gt", "C08", {}), ("<=", "le", "C08", {}), (">=", "ge", "C08", {}), ("a.match(b)", "match", "C09", {}), ("a.nmatch(b)", "nmatch", "C09", {}))):
            d = h(w, n) % 70 + 1
            for x, y in ((w, w), (w, w + d), (w + d, w)):
                if n in ("mul", "div", "mod") and max(x, y) > 64: continue
                if x != y and max(x, y) > 300: continue
                k = "LB"[h(w, x, y, n, "k") % 3 == 0]
                s1, s2 = sg(x, n, x, y, 1), sg(y, n, x, y, 2)
                t = (k, x, s1, k, y, s2)
                r = wider(*t) if i < 8 else (rel1 if n in ("lt", "gt", "le", "ge") else bool1)(*t) if i < 14 else op("I", 1)
                add(pr, n, [T(k, x, s1), T(k, y, s2)], [r], sym if "a" in sym else "a %s b" % sym, **kw)
        for k in "LB":
            s = sg(w, k)
            a = T(k, w, s)
            one = op("L", 1) if k == "L" else op("I", 1)
            add("C01", "not", [a], [op(k, w, False)], "~a")
            for n in ("r_and", "r_nand", "r_or", "r_nor", "r_xor", "r_xnor"):
                if w <= 300: add("C02", n, [a], [one], "a.%s()" % n)
            if k == "B":
                for n, rw in (("any_set", 1), ("all_set", 1), ("popcount", 64)):
                    if w <= 200 or n != "popcount": add("C02", n, [a], [op("I", rw)], "a.%s()" % n)
            add("C02", "lnot", [a], [one], "!a")
            add("C20", "tobool", [a], [op("I", 1)], "static_cast<bool>(a)")
            add("C20", "touint64", [a], [op("I", 64)], "a.to_uint64()")
            if w <= 64: add("C20", "tonum", [a], [op("I", 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64, s)], "a.to_num()")
            add("C04", "neg", [a], [a], "-a", **ari)
            for n, e in ((("preinc", "++a"), ("postdec", "a--")) if w % 2 else (("predec", "--a"), ("postinc", "a++"))):
                add("C04", n, [a], [a, a], code="auto r = %s;" % e, store="st(out, 0, r); st(out, 1, a);", **ari)
            for n, e in (("shl", "a << b"), ("shr", "a >> b"), ("ashl", "a.ashl(b)"), ("ashr", "a.ashr(b)")):
                aw = (5, 8, 9, 7)[h(w, k, n) % 4]
                if w > 140 and tier != "thorough" and h(w, k, n, 1) % 2 or w > 320 and k == "L": continue
                as_ = sg(aw, k, n, "amount")
                if n == "ashr" and s and w > 64: continue  # the open finding; the main grid has these
                add("C11" if n[0] == "a" else "C10", n, [a, T(k, aw, as_)], [op(k, w, s and as_)], e, first=[1], cells=amount_cells(w, aw, k == "L"))
            need = max(1, (w - 1).bit_length())
            if k == "L": add("C15", "bitsel", [a, op("L", need + 1)], [one], "a.get(b)", first=[1], p=dict(asc=0, base=0))
            add("C15", "bitsel", [a, op("I", 32, True)], [op(k, 1)], "a[b]", first=[1], p=dict(asc=0, base=0, assume=1), cells=index_cells(w, 0, 32, True))
            add("C17", "setbit", [a, op("I", 32, True), op(k, 1)], [a], code="a.set(b, c);", store="st(out, 0, a);", first=[1], p=dict(asc=0, base=0, assume=1), cells=index_cells(w, 0, 32, True, 1))
            lo = h(w, k, "lo") % w; n = h(w, k, "n") % (w - lo) + 1
            for e in ("a.template slice<%d,%d>()" % (lo + n - 1, lo), "a.template slice<%du>(%d, %d)" % (n, lo + n - 1, lo)):
                if n < w: add("C16", "slice", [a], [op(k, n)], e, p=dict(lo=lo))
            vw = max(1, n + h(w, k, "vw") % 5 - 2)
            for e in ("a.template update<%d,%d>(b);" % (lo + n - 1, lo), "a.update(%d, %d, b);" % (lo + n - 1, lo)):
                add("C17", "update", [a, op(k, vw)], [a], code=e, store="st(out, 0, a);", p=dict(lo=lo, n=n))
            for d in (1, h(w, k, "ext") % 64 + 2, 64): add("C14", "convert", [a], [op(k, w + d, s)], "a.template extend<%d>()" % (w + d))
            add("C14", "reinterpret", [a], [op(k, w, not s)], "a.to_%s()" % ("unsigned" if s else "signed")) if w > 1 else None
            for x in {max(1, w - 1), w + 1, h(w, k, "as") % (w + 60) + 1}:
                s2 = sg(x, k, "as")
                add("C14", "assign", [a, T(k, x, s2)], [a], code="a = b;", store="st(out, 0, a);")
            for nt, nw, ns in (("uint64_t", 64, False), ("int", 32, True)):
                add("C19", "assign", [a, op("I", nw, ns)], [a], code="a = b;", store="st(out, 0, a);")
                add("C19", "convert", [op("I", nw, ns)], [a], code="%s<%d,%s> r(a);" % (k, w, "true" if s else "false"), name="%s%s[%d](%s)" % ("s" if s else "", k, w, nt))
            add("C19", "default", [], [a], code="%s<%d,%s> r;" % (k, w, "true" if s else "false"), name="default %s%s[%d]" % ("s" if s else "", k, w))
            if k == "L": add("C19", "convert", [T("B", w, s)], [a], code="logic::logic<%d,0,%s> r(a);" % (w - 1, "true" if s else "false"))
            y = h(w, k, "cat") % 70 + 1
            for u, v in ((w, y), (y, w)):
                add("C18", "concat", [T(k, u, sg(u, "c")), T(k, v, sg(v, "c2"))], [op(k, u + v)], "a.concat(b)")
            if w > 2:
                c = h(w, k, "un") % (w - 1) + 1
                add("C18", "unpack", [op(k, w), op(k, w - c), op(k, c)], [op(k, w - c), op(k, c)], code="a.unpack(b, c);", store="st(out, 0, b); st(out, 1, c);")
            # text
            for base, st in (("b", 1), ("o", 3), ("h", 4)):
                if w > 140 and tier != "thorough" and h(w, k, base) % 2: continue
                add("C23", "str", [a], [dict(k="S")], 'a.str("%s")' % base, p=dict(req=-1), ps=dict(base=base))
                alts = ALTS[base] if k == "L" else ALTS[base].translate({ord(c): None for c in "xXzZ"})
                nd = (w + st - 1) // st
                ch = lit("'" + base, "?" * nd, alts)
                add("C21", "parse", [dict(k="C", w=0, s=False, n=len(ch))], [a], code="%s<%d,%s> r(a);" % (k, w, "true" if s else "false"), p=dict(start=2), ps=dict(base=base), cells=[dict(id="t", ops=[dict(chars=ch)])], name="%s%s[%d] from '%s and %d digits" % ("s" if s else "", k, w, base, nd))
            # the width of the text: the top bits decide how many digits there are
            zero = [dict(id="top", ops=[dict(v="win:%d:%d:0" % (max(0, w - 2), min(2, w)), m="zero")])]
            for base in "ds":
                if base == "s" and k == "B": continue
                add("C24", "str", [a], [dict(k="S")], 'a.str("%s")' % base, p=dict(req=-1), ps=dict(base=base), cells=zero)
    return out

FAMILIES = dict(sweep=sweep, bignum=bignum, widediv=widediv, members=members, arrays=arrays, bitwise=bitwise, reductions=reductions, addsub=addsub, mul=mul, divmod=divmod_, equality=equality, relational=relational, caseeq=caseeq, shifts=shifts, bitsel=bitsel, slices=slices, writes=writes, concats=concats, conversions=conversions, parse=parse, strs=strs, decimals=decimals)

def cross(prop, p, tier, seed):
    """thinning of the families for the properties that range over every operation"""
    h = int(hashlib.md5((p.op + "|" + p.text).encode()).hexdigest(), 16)
    if tier != "thorough" and (p.op in ("update", "updaterun", "setbit", "setx", "setz", "assign") and (prop != "C12" and h % 2 or prop == "C13" and h % 6) or prop == "C13" and p.op in ("slice", "slicerun") and h % 2): return False
    if getattr(p, "fam", None) == "sweep" and (h // 1000 % (12 if tier != "thorough" else 3) or prop == "C13" and p.op in ("parse", "str") or prop == "C12" and p.op == "str" or prop == "C28" and p.op in ("str", "parse")): return False
    if prop == "C13":
        p.cells = [dict(id="types", ops=[dict(v="hex:1", m="zero") for _ in p.ops])]
        if p.p.get("assume"):  # an index inside the contract
            n = p.p.get("n", p.res[0]["w"] if p.op == "slicerun" else 1)
            p.cells[0]["ops"][1]["v"] = "hex:%x" % (0 if p.p.get("up", 1) else n - 1)
        return True
    ws = [o["w"] for o in p.ops] + [r["w"] for r in p.res if "w" in r]
    if prop == "C12":
        if not any(r["k"] in "LB" and (r["w"] > 1 and r["w"] not in (8, 16, 32) and r["w"] % 64) or r["k"] == "B" and r["w"] == 1 for r in p.res): return False
        p.frame = False
    if prop in ("C28", "C29", "C30"): p.p = dict(p.p, effects=1)
    if tier == "thorough": return True
    keep = 2 if prop == "C12" else 3
    if max(ws, default=0) > 130 and p.op in ("slicerun", "shl", "shr", "ashl", "ashr", "shl=", "shr="): keep *= 3
    return h // 7 % keep == 0
KNOWN = {"F1": lambda p: p.ops[0]["w"] > 64 and p.ops[0]["s"]}
