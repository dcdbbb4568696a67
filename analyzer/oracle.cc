#include "oracle.hh"

#include <functional>
using std::string;
using std::vector;
static constexpr Lit FF = 0, TT = 1;

namespace {
struct O {
    Interp &I;
    const Probe &p;
    vector<Expect> out;
    using V = Bits;

    Lit any(const V &a) { return I.orv(a); }
    V zeros(uint32_t w) { return V(w, FF); }
    V ext(const V &a, uint32_t w, bool s) {
        V r = a;
        r.resize(w, s && !a.empty() ? a.back() : FF);
        return r;
    }
    // operand k extended (or truncated) to w bits by its own signedness
    V xv(int k, uint32_t w) { return ext(p.ops[k].v, w, p.ops[k].s); }
    V xm(int k, uint32_t w) { return ext(p.ops[k].m, w, p.ops[k].s); }
    Lit unk(int k) { return any(p.ops[k].m); }
    bool four(int k) { return p.ops[k].k == "L"; }
    void known(const V &v) { Expect e; e.have = true; e.v = v; e.m = zeros((uint32_t)v.size()); out.push_back(e); }
    // value v where all operands are known, all-x where unk holds
    void arith(const V &v, Lit x, Lit care = TT) {
        Expect e;
        e.have = true;
        e.v = v;
        e.m = V(v.size(), x);
        e.careV = I.And(care, NOT(x));
        e.careX = x;
        out.push_back(e);
    }
    void same(const V &v, const V &m) { Expect e; e.have = true; e.v = v; e.m = m; out.push_back(e); }
    V shiftv(const V &a, const V &amt, int mode, Lit fill) {  // 0 left, 1 right
        uint32_t w = (uint32_t)a.size();
        V x = a;
        Lit over = FF;
        for (size_t k = 0; k < amt.size(); k++) {
            if (k >= 32 || (1ull << k) >= w) { over = I.Or(over, amt[k]); continue; }
            uint32_t d = 1u << k;
            V s(w);
            for (uint32_t i = 0; i < w; i++) {
                if (mode == 0) s[i] = i >= d ? x[i - d] : FF;
                else s[i] = i + d < w ? x[i + d] : fill;
            }
            x = I.itev(amt[k], s, x);
        }
        for (auto &l : x) l = I.Ite(over, fill, l);
        return x;
    }
    // element of table at symbolic index (w bits of stride), dflt when out of range
    void lane(int k, Lit &v, Lit &m, int64_t i) { v = p.ops[k].v[i]; m = p.ops[k].m[i]; }

    void run();
    void strings();
    void parsing();
};

void O::run() {
    const string &op = p.op;
    const auto &A = p.ops.empty() ? *new Operand : p.ops[0];
    static const Operand none;
    const auto &B = p.ops.size() > 1 ? p.ops[1] : none;
    uint32_t W = std::max(A.w, B.w);
    uint32_t R = p.res.empty() ? 0 : p.res[0].w;
    auto bitwise = [&](const string &f, uint32_t w, uint32_t keep) {
        V a = xv(0, w), am = xm(0, w), b = xv(1, w), bm = xm(1, w), v(keep), m(keep);
        for (uint32_t i = 0; i < keep; i++) {
            Lit a1 = I.And(a[i], NOT(am[i])), a0 = I.And(NOT(a[i]), NOT(am[i])), b1 = I.And(b[i], NOT(bm[i])), b0 = I.And(NOT(b[i]), NOT(bm[i]));
            Lit one, zero;
            if (f == "and") { one = I.And(a1, b1); zero = I.Or(a0, b0); }
            else if (f == "or") { one = I.Or(a1, b1); zero = I.And(a0, b0); }
            else { one = I.Or(I.And(a1, b0), I.And(a0, b1)); zero = I.Or(I.And(a1, b1), I.And(a0, b0)); }
            v[i] = one;
            m[i] = NOT(I.Or(one, zero));
        }
        same(v, m);
    };
    if (op == "and" || op == "or" || op == "xor") { bitwise(op, W, W); return; }
    if (op == "and=" || op == "or=" || op == "xor=") { bitwise(op.substr(0, op.size() - 1), W, A.w); return; }
    if (op == "not") {
        V v(A.w), m = A.m;
        for (uint32_t i = 0; i < A.w; i++) v[i] = I.And(NOT(A.v[i]), NOT(m[i]));
        same(v, m);
        return;
    }
    // ---- reductions
    if (op == "r_and" || op == "r_nand" || op == "r_or" || op == "r_nor") {
        Lit z = FF, x = unk(0);
        bool isand = op == "r_and" || op == "r_nand";
        for (uint32_t i = 0; i < A.w; i++) z = I.Or(z, I.And(NOT(A.m[i]), isand ? NOT(A.v[i]) : A.v[i]));
        Lit m = I.And(x, NOT(z));
        Lit v = isand ? NOT(z) : z;
        if (op == "r_nand" || op == "r_nor") v = NOT(v);
        same({I.And(v, NOT(m))}, {m});
        return;
    }
    if (op == "r_xor" || op == "r_xnor") {
        Lit x = unk(0), v = FF;
        for (auto l : A.v) v = I.Xor(v, l);
        if (op == "r_xnor") v = NOT(v);
        arith({v}, x);
        return;
    }
    if (op == "any_set") { known({any(A.v)}); return; }
    if (op == "all_set") { Lit z = TT; for (auto l : A.v) z = I.And(z, l); known({z}); return; }
    if (op == "popcount") {
        V s = zeros(64);
        for (auto l : A.v) { V o = zeros(64); o[0] = l; s = I.addv(s, o, FF); }
        known(s);
        return;
    }
    if (op == "lnot") { arith({NOT(any(A.v))}, unk(0)); return; }
    if (op == "tobool") { known({I.And(any(A.v), NOT(unk(0)))}); return; }
    if (op == "highest_bit") {
        V r = zeros(64);
        for (uint32_t i = 0; i < A.w; i++) r = I.itev(A.v[i], I.bits(Interp::mkc(64, i)), r);
        Expect e; e.have = true; e.v = r; e.m = zeros(64); e.careV = any(A.v); out.push_back(e);
        return;
    }
    // ---- arithmetic
    if (op == "add" || op == "sub" || op == "mul" || op == "div" || op == "mod") {
        Lit x = I.Or(unk(0), unk(1));
        Lit care = TT;
        V v;
        if (op == "add") v = I.addv(xv(0, W), xv(1, W), FF);
        else if (op == "sub") v = I.addv(xv(0, W), I.notv(xv(1, W)), TT);
        else if (op == "mul") v = I.mulv(xv(0, W), xv(1, W));
        else {
            Lit z = NOT(any(B.v));
            if (p.res[0].k == "L") x = I.Or(x, z);
            else care = NOT(z);
            bool sg = A.s && B.s;
            V a = xv(0, W), b = xv(1, W);
            a = ext(a, W + 3, sg); b = ext(b, W + 3, sg);
            int o = op == "div" ? (sg ? UF_SDIV : UF_UDIV) : (sg ? UF_SREM : UF_UREM);
            if (p.get("shortcut") == 1) { v = op == "div" ? a : zeros(W); }                   // divisor 1
            else if (p.get("shortcut") == 2) { v = zeros(W); if (op == "div") v[0] = TT; }      // equal operands
            else if (p.get("shortcut") == 3) { v = op == "div" ? zeros(W) : a; }              // dividend < divisor (unsigned)
            else v = I.divv(o, a, b);
            v.resize(W, FF);
            if (p.get("shortcut") == 2) care = I.And(care, I.eqv(xv(0, W), xv(1, W)));
            if (p.get("shortcut") == 3) care = I.And(care, I.ultv(xv(0, W), xv(1, W)));
        }
        arith(v, x, care);
        return;
    }
    if (op == "neg") { arith(I.negv(A.v), unk(0)); return; }
    if (op == "plus") { arith(A.v, unk(0)); return; }
    if (op == "preinc" || op == "postinc" || op == "predec" || op == "postdec") {
        V one = zeros(A.w);
        one[0] = TT;
        V n = op == "preinc" || op == "postinc" ? I.addv(A.v, one, FF) : I.addv(A.v, I.notv(one), TT);
        if (op[1] == 'r') { arith(n, unk(0)); arith(n, unk(0)); }  // value of the expression, then the variable
        else { same(A.v, A.m); arith(n, unk(0)); }
        return;
    }
    // ---- comparison
    if (op == "eq" || op == "ne") {
        Lit e = I.eqv(xv(0, W), xv(1, W));
        arith({op == "eq" ? e : NOT(e)}, I.Or(unk(0), unk(1)));
        return;
    }
    if (op == "lt" || op == "gt" || op == "le" || op == "ge") {
        V a = xv(0, W), b = xv(1, W);
        bool sg = A.s && B.s;
        auto lt = [&](const V &x, const V &y) { return sg ? I.sltv(x, y) : I.ultv(x, y); };
        Lit r = op == "lt" ? lt(a, b) : op == "gt" ? lt(b, a) : op == "le" ? NOT(lt(b, a)) : NOT(lt(a, b));
        if (A.k == "B" && B.k == "L") known({I.And(r, NOT(unk(1)))});  // a plain truth value: never true when unknown
        else arith({r}, I.Or(unk(0), unk(1)));
        return;
    }
    if (op == "match" || op == "nmatch") {
        Lit e = I.And(I.eqv(xv(0, W), xv(1, W)), I.eqv(xm(0, W), xm(1, W)));
        known({op == "match" ? e : NOT(e)});
        return;
    }
    // ---- shifts
    if (op == "shl" || op == "shr" || op == "ashl" || op == "ashr" || op == "shl=" || op == "shr=") {
        Lit x = I.Or(unk(0), unk(1));
        bool right = op[0] == 's' ? op[2] == 'r' : op[3] == 'r';
        Lit fill = op == "ashr" && A.s ? A.v.back() : FF;
        // a result of fewer significant bits never occurs: the left operand fixes the width
        V r = shiftv(A.v, B.v, right, fill);
        if (p.get("known") && op == "ashr")  // recorded finding: the image of the top bit is lost
            for (uint32_t a = 0; a < A.w; a++) {
                V c = zeros(B.w);
                bool fits = true;
                for (uint32_t k = 0; k < 32; k++) if ((a >> k) & 1) { if (k < B.w) c[k] = TT; else fits = false; }
                if (fits) r[A.w - 1 - a] = I.And(r[A.w - 1 - a], NOT(I.eqv(B.v, c)));
            }
        arith(r, x);
        return;
    }
    // ---- selects
    int64_t base = p.get("base", 0);  // lowest declared index of operand 0
    // the bit pattern with which operand `idx` denotes index i; false if it cannot
    auto pattern = [&](const Operand &idx, int64_t i, V &c) {
        c = zeros(idx.w);
        for (uint32_t k = 0; k < idx.w; k++) c[k] = (k < 63 ? (i >> k) & 1 : i < 0) ? TT : FF;
        if (idx.s) return idx.w >= 63 || (i >= -((int64_t)1 << (idx.w - 1)) && i < ((int64_t)1 << (idx.w - 1)));
        return i >= 0 && (idx.w >= 63 || i < ((int64_t)1 << idx.w));
    };
    // the index from which an indexed range of n bits counts when its lowest bit is at position lo
    auto baseIndex = [&](uint32_t lo, uint32_t n, bool up) {
        int64_t first = p.get("asc") ? (int64_t)A.w - lo - n : lo;  // smallest index of the range
        return base + first + (up ? 0 : n - 1);
    };
    auto readBit = [&](const Operand &a, const Operand &idx, bool ascending, Lit &v, Lit &m, Lit &inr) {
        v = FF; m = FF; inr = FF;
        for (uint32_t j = 0; j < a.w; j++) {
            V c;
            if (!pattern(idx, j + base, c)) continue;
            Lit e = I.eqv(idx.v, c);
            uint32_t at = ascending ? a.w - 1 - j : j;
            v = I.Or(v, I.And(e, a.v[at]));
            m = I.Or(m, I.And(e, a.m[at]));
            inr = I.Or(inr, e);
        }
    };
    if (op == "bitsel") {  // operand 1: plain int index; optionally ascending range [0:N-1]
        Lit v, m, in;
        readBit(A, B, p.get("asc"), v, m, in);
        if (four(0)) { Lit x = I.Or(NOT(in), unk(1)); same({I.And(v, NOT(x))}, {I.Or(m, x)}); }
        else { Expect e; e.have = true; e.v = {v}; e.m = {FF}; e.careV = in; out.push_back(e); }
        return;
    }
    if (op == "isx" || op == "isz") {  // is the indexed bit exactly x (z)?
        Lit v, m, in;
        readBit(A, B, p.get("asc"), v, m, in);
        Expect e; e.have = true; e.v = {I.And(m, op == "isx" ? NOT(v) : v)}; e.m = {FF}; e.careV = in; out.push_back(e);
        return;
    }
    if (op == "isxc" || op == "iszc") {
        uint32_t i = (uint32_t)p.get("i");
        known({I.And(A.m[i], op == "isxc" ? NOT(A.v[i]) : A.v[i])});
        return;
    }
    if (op == "const") { same(V(1, p.get("v") ? TT : FF), V(1, p.get("m") ? TT : FF)); return; }
    if (op == "bitselc") {
        uint32_t i = (uint32_t)p.get("i");
        if (p.get("asc")) i = A.w - 1 - i;
        same({A.v[i]}, {A.m[i]});
        return;
    }
    if (op == "slice") {  // constant or constant-at-call bounds [hi:lo]
        uint32_t lo = (uint32_t)p.get("lo"), n = R;
        same(V(A.v.begin() + lo, A.v.begin() + lo + n), V(A.m.begin() + lo, A.m.begin() + lo + n));
        return;
    }
    if (op == "slicerun" || op == "sliceidx") {
        // base operand B, width R; ascending (+:) low = base, descending (-:) low = base-(R-1)
        bool up = p.get("up", 1);
        V v = zeros(R), m = zeros(R);
        Lit in = FF;
        for (uint32_t lo = 0; lo + R <= A.w; lo++) {
            V c;
            if (!pattern(B, baseIndex(lo, R, up), c)) continue;
            Lit e = I.And(I.eqv(B.v, c), NOT(unk(1)));
            in = I.Or(in, e);
            for (uint32_t k = 0; k < R; k++) { v[k] = I.Or(v[k], I.And(e, A.v[lo + k])); m[k] = I.Or(m[k], I.And(e, A.m[lo + k])); }
        }
        Expect e; e.have = true; e.v = v; e.m = m; e.careV = e.careM = in; out.push_back(e);
        return;
    }
    // ---- writes: operand 0 old value; result the whole vector
    if (op == "setbit") {  // B index (plain int), C value (1 bit, L/B)
        const auto &C = p.ops[2];
        V v = A.v, m = A.m;
        Lit in = FF;
        for (uint32_t j = 0; j < A.w; j++) {
            V c;
            if (!pattern(B, j + base, c)) continue;
            Lit e = I.eqv(B.v, c);
            in = I.Or(in, e);
            uint32_t at = p.get("asc") ? A.w - 1 - j : j;
            v[at] = I.Ite(e, C.v[0], v[at]);
            m[at] = I.Ite(e, C.m[0], m[at]);
        }
        Expect e; e.have = true; e.v = v; e.m = m; e.careV = e.careM = in; out.push_back(e);
        return;
    }
    if (op == "update") {  // [hi:lo] = B (B may be wider or narrower)
        uint32_t lo = (uint32_t)p.get("lo"), n = (uint32_t)p.get("n");
        V v = A.v, m = A.m;
        for (uint32_t i = 0; i < n; i++) { v[lo + i] = i < B.w ? B.v[i] : FF; m[lo + i] = i < B.w ? B.m[i] : FF; }
        same(v, m);
        return;
    }
    if (op == "updaterun") {  // base operand B (plain int or vector), new value C of n bits
        const auto &C = p.ops[2];
        uint32_t n = (uint32_t)p.get("n");
        bool up = p.get("up", 1);
        V v = A.v, m = A.m;
        Lit in = FF;
        for (uint32_t lo = 0; lo + n <= A.w; lo++) {
            V c;
            if (!pattern(B, baseIndex(lo, n, up), c)) continue;
            Lit e = I.And(I.eqv(B.v, c), NOT(unk(1)));
            in = I.Or(in, e);
            for (uint32_t k = 0; k < n; k++) { v[lo + k] = I.Ite(e, k < C.w ? C.v[k] : FF, v[lo + k]); m[lo + k] = I.Ite(e, k < C.w ? C.m[k] : FF, m[lo + k]); }
        }
        Expect e; e.have = true; e.v = v; e.m = m; e.careV = e.careM = in; out.push_back(e);
        return;
    }
    if (op == "setx" || op == "setz") {
        V v = A.v, m = A.m;
        uint32_t i = (uint32_t)p.get("i");
        m[i] = TT; v[i] = op == "setz" ? TT : FF;
        same(v, m);
        return;
    }
    if (op == "concat") {  // first operand most significant
        V v, m;
        for (size_t k = p.ops.size(); k-- > 0;) { v.insert(v.end(), p.ops[k].v.begin(), p.ops[k].v.end()); m.insert(m.end(), p.ops[k].m.begin(), p.ops[k].m.end()); }
        same(v, m);
        return;
    }
    if (op == "unpack") {  // results: parts, first most significant; previous contents irrelevant
        uint32_t at = (uint32_t)p.get("total", A.w);
        V v = A.v, m = A.m;
        v.resize(std::max(at, A.w), FF);
        m.resize(std::max(at, A.w), FF);
        for (auto &r : p.res) {
            if (r.frame >= 0) break;
            at -= r.w;
            same(V(v.begin() + at, v.begin() + at + r.w), V(m.begin() + at, m.begin() + at + r.w));
        }
        return;
    }
    // ---- conversions
    if (op == "convert") { same(xv(0, R), xm(0, R)); return; }                    // by the source's signedness
    if (op == "assign") { same(xv(1, R), xm(1, R)); return; }                     // operand 0 is the old content
    if (op == "reinterpret") { same(A.v, A.m); return; }
    if (op == "dropx") { V v = A.v; same(v, zeros(A.w)); return; }
    if (op == "default") { same(zeros(R), V(R, p.res[0].k == "L" ? TT : FF)); return; }
    if (op == "tonum") {  // zero when unknown
        V v = ext(A.v, 64, A.s);
        Lit x = unk(0);
        for (auto &l : v) l = I.And(l, NOT(x));
        v.resize(R, FF);
        known(v);
        return;
    }
    if (op == "touint64") {
        V v = A.v;
        if (A.w < 64) v = ext(v, 64, A.s);
        v.resize(64);
        Lit x = unk(0);
        for (auto &l : v) l = I.And(l, NOT(x));
        known(v);
        return;
    }
    // ---- packed arrays: A content, B index vector, optional C element; element width ew, count n, low index base
    if (op == "arrget" || op == "arrset") {
        uint32_t ew = (uint32_t)p.get("ew"), n = (uint32_t)p.get("n");
        int64_t base = p.get("base");
        V v = zeros(ew), m = zeros(ew), av = A.v, am = A.m;
        Lit in = FF;
        for (uint32_t e = 0; e < n; e++) {
            V c;
            if (!pattern(B, base + (p.get("asc") ? n - 1 - e : e), c)) continue;
            Lit q = I.And(I.eqv(B.v, c), NOT(unk(1)));
            in = I.Or(in, q);
            for (uint32_t k = 0; k < ew; k++) {
                v[k] = I.Or(v[k], I.And(q, A.v[e * ew + k])); m[k] = I.Or(m[k], I.And(q, A.m[e * ew + k]));
                if (op == "arrset") {
                    const auto &C = p.ops[2];
                    av[e * ew + k] = I.Ite(q, k < C.w ? C.v[k] : FF, av[e * ew + k]);
                    am[e * ew + k] = I.Ite(q, k < C.w ? C.m[k] : FF, am[e * ew + k]);
                }
            }
        }
        if (op == "arrset") { same(av, am); return; }
        bool L = p.res[0].k == "L";
        for (uint32_t k = 0; k < ew; k++) { v[k] = I.And(v[k], in); if (L) m[k] = I.Or(m[k], NOT(in)); }
        same(v, m);
        return;
    }
    if (op == "uaset") {  // elements, then the value written to element i (i < 0: outside the range)
        size_t n = p.ops.size() - 1;
        for (size_t e = 0; e < n; e++) {
            const auto &s = p.ops[(int64_t)e == p.get("i") ? n : e];
            V v = ext(s.v, p.ops[e].w, s.s), m = ext(s.m, p.ops[e].w, s.s);
            same(v, m);
        }
        return;
    }
    if (op == "uaget") {  // the elements, then a plain int index
        size_t n = p.ops.size() - 1;
        const auto &X = p.ops[n];
        uint32_t ew = A.w;
        int64_t base = p.get("base");
        V v = zeros(ew), m = zeros(ew);
        Lit in = FF;
        for (size_t e = 0; e < n; e++) {
            uint64_t idx = (uint64_t)(base + (int64_t)e);
            V c = zeros(X.w);
            for (uint32_t k = 0; k < X.w; k++) c[k] = (idx >> k) & 1;
            Lit q = I.eqv(X.v, c);
            in = I.Or(in, q);
            const auto &s = p.ops[e];
            for (uint32_t k = 0; k < ew; k++) { v[k] = I.Or(v[k], I.And(q, s.v[k])); m[k] = I.Or(m[k], I.And(q, s.m[k])); }
        }
        bool L = p.res[0].k == "L";
        if (L) for (uint32_t k = 0; k < ew; k++) m[k] = I.Or(m[k], NOT(in));
        same(v, m);
        return;
    }
    if (op == "parse") { parsing(); return; }
    if (op == "str") { strings(); return; }
    throw Undecided{"no reference meaning for " + op};
}

void O::parsing() {
    // operand 0: the literal's characters; digits begin at p.start; base in ps.base
    const auto &C = p.ops[0].chars;
    uint32_t w = p.res[0].w;
    string base = p.gets("base");
    size_t start = (size_t)p.get("start");
    auto chIs = [&](const Bits &c, char x) { return I.eqv(c, I.bits(Interp::mkc(8, (uint8_t)x))); };
    auto chIn = [&](const Bits &c, char a, char b) { return I.And(NOT(I.ultv(c, I.bits(Interp::mkc(8, (uint8_t)a)))), NOT(I.ultv(I.bits(Interp::mkc(8, (uint8_t)b)), c))); };
    V v = zeros(w), m = zeros(w);
    if (base == "s") {
        for (size_t i = 0; i < C.size() - start; i++) {
            const Bits &c = C[C.size() - 1 - i];
            for (uint32_t k = 0; k < 8; k++) if (i * 8 + k < w) v[i * 8 + k] = c[k];
        }
        same(v, m);
        return;
    }
    if (base == "d") {
        for (size_t i = start; i < C.size(); i++) {
            const Bits &c = C[i];
            Lit dig = chIn(c, '0', '9');
            if (dig == FF) continue;
            V d = zeros(w);
            for (uint32_t k = 0; k < 4 && k < w; k++) d[k] = c[k];
            V t = I.addv(I.addv(I.shlc(v, 3), I.shlc(v, 1), FF), d, FF);
            v = I.itev(dig, t, v);
        }
        same(v, m);
        return;
    }
    uint32_t st = base == "b" ? 1 : base == "o" ? 3 : 4;
    uint32_t at = 0;
    for (size_t i = C.size(); i-- > start;) {
        const Bits &c = C[i];
        Lit us = chIs(c, '_');
        if (us == TT) continue;
        if (us != FF) throw Undecided{"undetermined underscore"};
        Lit x = I.Or(chIs(c, 'x'), chIs(c, 'X')), z = I.Or(chIs(c, 'z'), chIs(c, 'Z'));
        Lit dec = chIn(c, '0', '9');
        V d(4, FF), low(c.begin(), c.begin() + 4);
        V let = I.addv(low, I.bits(Interp::mkc(4, 9)), FF);  // 'a' and 'A' have low nibble 1
        d = I.itev(dec, low, let);
        for (uint32_t k = 0; k < st; k++)
            if (at + k < w) { v[at + k] = I.Ite(x, FF, I.Ite(z, TT, d[k])); m[at + k] = I.Or(x, z); }
        at += st;
    }
    same(v, m);
}

void O::strings() {
    const auto &A = p.ops[0];
    string base = p.gets("base");
    uint32_t w = A.w;
    int64_t req = p.get("req", -1);  // requested width, -1 when the format has none
    Expect e;
    e.have = e.str = true;
    auto cc = [&](char c) { return I.bits(Interp::mkc(8, (uint8_t)c)); };
    vector<Bits> digs;  // least significant first
    if (base == "b" || base == "o" || base == "h" || base == "x") {
        uint32_t st = base == "b" ? 1 : base == "o" ? 3 : 4;
        for (uint32_t at = 0; at < w; at += st) {
            uint32_t n = std::min(st, w - at);
            V d(4, FF);
            Lit anyU = FF, allU = TT, anyX = FF, allX = TT, allZ = TT;
            for (uint32_t k = 0; k < n; k++) {
                Lit v = A.v[at + k], m = A.m[at + k];
                d[k] = v;
                anyU = I.Or(anyU, m); allU = I.And(allU, m);
                Lit isx = I.And(m, NOT(v)), isz = I.And(m, v);
                anyX = I.Or(anyX, isx); allX = I.And(allX, isx); allZ = I.And(allZ, isz);
            }
            V num = I.addv(ext(d, 8, false), cc('0'), FF), let = I.addv(ext(d, 8, false), cc('a' - 10), FF);
            V ch = I.itev(I.And(d[3], I.Or(d[2], d[1])), let, num);
            V uc = I.itev(allX, cc('x'), I.itev(allZ, cc('z'), I.itev(anyX, cc('X'), cc('Z'))));
            digs.push_back(I.itev(anyU, uc, ch));
        }
        size_t nat = digs.size();
        if (req == 0) {
            // a field width of zero: leading zeros are not printed (IEEE 1800 21.2.1.3)
            V len = I.bits(Interp::mkc(64, 1));
            vector<Bits> cs(nat, cc(0));
            cs[0] = digs[0];
            for (size_t L = 2; L <= nat; L++) {
                Lit nz = NOT(I.eqv(digs[L - 1], cc('0')));
                len = I.itev(nz, I.bits(Interp::mkc(64, L)), len);
                for (size_t q = 0; q < L; q++) cs[q] = I.itev(nz, digs[L - 1 - q], cs[q]);
            }
            e.chars = cs; e.len = len;
            out.push_back(e);
            return;
        }
        size_t n = nat;
        if (req > 0 && (size_t)req > n) n = (size_t)req;
        for (size_t i = 0; i < n; i++) { size_t q = n - 1 - i; e.chars.push_back(q < nat ? digs[q] : cc('0')); }
        e.len = I.bits(Interp::mkc(64, n));
        out.push_back(e);
        return;
    }
    if (base == "s") {
        uint32_t nb = (w + 7) / 8;
        size_t n = nb;
        if (req > 0 && (size_t)req > n) n = (size_t)req;
        for (size_t i = 0; i < n; i++) {
            size_t q = n - 1 - i;
            if (q >= nb) { e.chars.push_back(cc(' ')); continue; }
            V c = zeros(8);
            for (uint32_t k = 0; k < 8; k++) if (q * 8 + k < w) c[k] = A.v[q * 8 + k];
            e.chars.push_back(c);
        }
        e.len = I.bits(Interp::mkc(64, n));
        out.push_back(e);
        return;
    }
    if (base == "d") {
        Lit x = unk(0), allU = TT, anyX = FF, allX = TT, allZ = TT;
        for (uint32_t i = 0; i < w; i++) {
            Lit isx = I.And(A.m[i], NOT(A.v[i])), isz = I.And(A.m[i], A.v[i]);
            allU = I.And(allU, A.m[i]); anyX = I.Or(anyX, isx); allX = I.And(allX, isx); allZ = I.And(allZ, isz);
        }
        V uc = I.itev(allX, cc('x'), I.itev(allZ, cc('z'), I.itev(anyX, cc('X'), cc('Z'))));
        Lit neg = A.s ? I.And(A.v.back(), NOT(x)) : FF;
        V mag = I.itev(neg, I.negv(A.v), A.v);
        // natural field width: digits of 2^w - 1
        vector<Bits> ds;
        V q = mag;
        q.resize(std::max<size_t>(q.size(), 5), FF);
        for (;;) {
            V ten = I.bits(Interp::mkc((uint32_t)std::min<size_t>(q.size(), 64), 10));
            ten.resize(q.size(), FF);
            V d = I.divv(UF_UREM, q, ten);
            d.resize(4); d = ext(d, 8, false);
            ds.push_back(I.addv(d, cc('0'), FF));
            q = I.divv(UF_UDIV, q, ten);
            bool z = true;
            for (auto l : q) if (l != FF) z = false;
            if (z || ds.size() > 200) break;
        }
        size_t nat = 1;
        {  // digits of 2^w-1
            vector<int> n{1};
            for (uint32_t i = 0; i < w; i++) { int c = 0; for (auto &d : n) { d = d * 2 + c; c = d / 10; d %= 10; } if (c) n.push_back(c); }
            nat = n.size();  // 2^w and 2^w-1 have the same number of digits (2^w is never a power of ten for w > 0)
        }
        // text without padding
        size_t D = ds.size();
        V len = I.bits(Interp::mkc(64, 1));
        vector<Bits> txt(D + 1, cc(0));
        txt[0] = ds[0];
        for (size_t L = 2; L <= D; L++) {
            // some digit at position >= L-1 nonzero
            Lit nz = FF;
            for (size_t k = L - 1; k < D; k++) nz = I.Or(nz, NOT(I.eqv(ds[k], cc('0'))));
            len = I.itev(nz, I.bits(Interp::mkc(64, L)), len);
            for (size_t i = 0; i < L; i++) txt[i] = I.itev(nz, ds[L - 1 - i], txt[i]);
        }
        if (neg != FF) {
            vector<Bits> t2(D + 1);
            t2[0] = cc('-');
            for (size_t i = 0; i < D; i++) t2[i + 1] = txt[i];
            for (size_t i = 0; i <= D; i++) txt[i] = I.itev(neg, t2[i], txt[i]);
            len = I.itev(neg, I.addv(len, I.bits(Interp::mkc(64, 1)), FF), len);
        }
        txt[0] = I.itev(x, uc, txt[0]);
        len = I.itev(x, I.bits(Interp::mkc(64, 1)), len);
        if (req != 0) {
            size_t n = nat;
            if (req > 0 && (size_t)req > n) n = (size_t)req;
            // pad with spaces to n (one more when a sign is printed)
            vector<Bits> best(n + 2, cc(0));
            V total = zeros(64);
            size_t maxl = txt.size();
            bool any1 = false;
            for (size_t L = 1; L <= maxl; L++) {
                Lit is = I.eqv(len, I.bits(Interp::mkc(64, L)));
                if (is == FF) continue;
                for (int ng = 0; ng < 2; ng++) {
                    Lit c = I.And(is, ng ? neg : NOT(neg));
                    if (c == FF) continue;
                    size_t t = std::max(L, n + (ng ? 1 : 0));
                    vector<Bits> s(n + 2, cc(0));
                    for (size_t i = 0; i < t && i < n + 2; i++) s[i] = i < t - L ? cc(' ') : txt[i - (t - L)];
                    for (size_t i = 0; i < n + 2; i++) best[i] = any1 ? I.itev(c, s[i], best[i]) : s[i];
                    total = any1 ? I.itev(c, I.bits(Interp::mkc(64, t)), total) : I.bits(Interp::mkc(64, t));
                    any1 = true;
                }
            }
            e.chars = best; e.len = total;
        } else { e.chars = txt; e.len = len; }
        out.push_back(e);
        return;
    }
    throw Undecided{"format"};
}
}  // namespace

vector<Expect> oracle(Interp &I, const Probe &p0) {
    Probe p = p0;
    if (p.get("shortcut") == 2) p.ops.push_back(p.ops[0]);  // the same operand twice
    O o{I, p, {}};
    o.run();
    return o.out;
}
