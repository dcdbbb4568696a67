// vpa: decides the obligations of a set of probes (one expression over the library each).
//   vpa JOB.json        JOB = {"bc":[files], "probes":[...]}; one JSON line per analysed cell on stdout
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <pthread.h>

#include <chrono>

#include "oracle.hh"
using namespace llvm;
using std::string;
using std::vector;
static constexpr Lit FF = 0, TT = 1;

struct CellOp { string v = "free", m = "free"; vector<string> chars; };
struct Ob { string kind; int slot; string status; string detail; string loc; };

namespace {
struct Runner {
    Interp &I;
    Module &M;
    struct InBit { int op; int plane; int pos; };

    string show(const Operand &o, const std::function<bool(Lit)> &ev) {
        if (o.k == "C") {
            string s = "\"";
            for (auto &c : o.chars) {
                unsigned v = 0;
                for (int k = 0; k < 8; k++) v |= (unsigned)ev(c[k]) << k;
                if (!v) continue;
                s += (char)v;
            }
            return s + "\"";
        }
        if (o.k == "I") {
            uint64_t v = 0;
            for (uint32_t i = 0; i < o.w && i < 64; i++) v |= (uint64_t)ev(o.v[i]) << i;
            if (o.s && o.w < 64 && ((v >> (o.w - 1)) & 1)) v |= ~0ull << o.w;
            return o.s ? std::to_string((int64_t)v) : std::to_string(v);
        }
        string s = std::to_string(o.w) + (o.s ? "'sb" : "'b");
        for (uint32_t i = o.w; i-- > 0;) {
            bool v = ev(o.v[i]), m = o.m.empty() ? false : ev(o.m[i]);
            s += m ? (v ? 'z' : 'x') : (v ? '1' : '0');
        }
        return s;
    }
    // decides whether cond can hold; fills witness evaluator
    enum R { NO, YES, MAYBE };
    R decide(Lit cond, std::unordered_map<uint32_t, bool> &asg, string &why) {
        if (cond == FF) return NO;
        // variable classes in the support
        bool unk = false, uf = false;
        std::set<uint32_t> done;
        vector<uint32_t> st{cond >> 1}, ufv;
        while (!st.empty()) {
            uint32_t n = st.back(); st.pop_back();
            if (!n || !done.insert(n).second) continue;
            Lit l = n << 1;
            uint32_t v = I.bdd.top(l);
            auto c = I.info(v).cls;
            if (c == VC::Unknown) { unk = true; why = I.info(v).name; }
            if (c == VC::UF) uf = true;
            st.push_back(I.bdd.hi(l) >> 1); st.push_back(I.bdd.lo(l) >> 1);
        }
        if (unk) {
            cond = I.bdd.Forall(cond, [&](uint32_t v) { return I.info(v).cls == VC::Unknown; });
            if (cond == FF) return MAYBE;
        }
        if (!uf) { asg = I.bdd.sat(cond); return YES; }
        // a witness must survive the real meaning of the multiplications/divisions involved
        uint64_t rs = 88172645463325252ull;
        for (int t = 0; t < 400; t++) {
            std::unordered_map<uint32_t, bool> a;
            Lit f = cond;
            auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (bool)((rs >> 20) & 1); };
            while (f > 1) {
                bool b;
                if (I.bdd.hi(f) == FF) b = false; else if (I.bdd.lo(f) == FF) b = true; else b = rnd();
                a[I.bdd.top(f)] = b;
                f = b ? I.bdd.hi(f) : I.bdd.lo(f);
            }
            std::unordered_map<uint32_t, bool> in2;
            for (auto &[v, x] : I.inputs) { auto it = a.find(v); in2[v] = it != a.end() ? it->second : rnd(); }
            for (auto &[v, b] : a) if (v >= Interp::EXTRA && I.info(v).cls != VC::UF) in2[v] = b;
            std::unordered_map<uint32_t, bool> memo;
            if (I.evalLit(cond, [&](uint32_t v) { auto it = in2.find(v); return it != in2.end() && it->second; }, memo)) { asg = in2; return YES; }
        }
        why = "depends on an uninterpreted product or quotient";
        return MAYBE;
    }

    // a representation that grows too large under one variable order is retried under others:
    // 0 bit by bit from the top across the operands, 1 the same with the words of an operand
    // interleaved, 2 bit by bit from the bottom
    json::Object cell(const Probe &p, const vector<CellOp> &cs, const string &cellId) {
        json::Object o;
        for (int order = 0; order < 3; order++) {
            bool tooBig = false;
            o = cellIn(p, cs, cellId, order, tooBig);
            if (!tooBig) break;
        }
        return o;
    }
    json::Object cellIn(Probe p, const vector<CellOp> &cs, const string &cellId, int varOrder, bool &tooBig) {
        auto t0 = std::chrono::steady_clock::now();
        json::Object out;
        out["probe"] = p.id;
        out["cell"] = cellId;
        vector<Ob> obs;
        string und;
        I.reset();
        I.events.clear();
        uint64_t b0 = I.blocks, i0 = I.instrs;
        size_t obl = 0, proved = 0;
        json::Array viol, undec;
        std::map<string, int> byKind, provedKind;
        Lit assume = TT;
        auto addViol = [&](const string &kind, int slot, const string &detail, const string &loc) {
            json::Object o; o["kind"] = kind; o["slot"] = slot; o["detail"] = detail; o["loc"] = loc;
            viol.push_back(std::move(o));
        };
        auto addUnd = [&](const string &kind, int slot, const string &why) {
            json::Object o; o["kind"] = kind; o["slot"] = slot; o["why"] = why;
            undec.push_back(std::move(o));
        };
        try {
            Function *f = M.getFunction(p.fn);
            if (!f) throw Undecided{"no such probe function"};
            // ---- operand bits
            struct Pos { int op; int plane; uint32_t bit; };
            vector<Pos> order;
            vector<vector<std::array<string, 2>>> dummy;
            auto constOf = [&](const string &spec, uint32_t bit, int &val) -> bool {  // true: constant
                if (spec == "zero") { val = 0; return true; }
                if (spec == "ones") { val = 1; return true; }
                auto hexbit = [&](const string &h, uint32_t b) -> int {
                    size_t d = b / 4;
                    if (d >= h.size()) return 0;
                    char c = h[h.size() - 1 - d];
                    int x = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
                    return (x >> (b % 4)) & 1;
                };
                if (spec.rfind("hex:", 0) == 0) { val = hexbit(spec.substr(4), bit); return true; }
                if (spec.rfind("win:", 0) == 0) {  // win:lo:n:hex  free window over constant background
                    size_t a = spec.find(':', 4), b = spec.find(':', a + 1);
                    uint32_t lo = std::stoul(spec.substr(4, a - 4)), n = std::stoul(spec.substr(a + 1, b - a - 1));
                    if (bit >= lo && bit < lo + n) return false;
                    val = hexbit(spec.substr(b + 1), bit);
                    return true;
                }
                return false;
            };
            std::set<int> first(p.first.begin(), p.first.end());
            uint32_t level = 0;
            for (size_t k = 0; k < p.ops.size(); k++) {
                auto &o = p.ops[k];
                o.v.assign(o.w, FF); o.m.assign(o.w, FF);
            }
            auto place = [&](size_t k, int plane, uint32_t b) {
                auto &o = p.ops[k];
                int val = 0;
                const string &spec = plane ? cs[k].m : cs[k].v;
                Lit l;
                if (plane && o.k != "L") l = FF;
                else if (constOf(spec, b, val)) l = val ? TT : FF;
                else l = I.inputVar(level++, "op" + std::to_string(k) + (plane ? ".m" : ".v") + std::to_string(b));
                (plane ? o.m : o.v)[b] = l;
            };
            for (int k : p.first) for (uint32_t b = p.ops[k].w; b-- > 0;) { place(k, 1, b); place(k, 0, b); }
            uint32_t mw = 0;
            for (size_t k = 0; k < p.ops.size(); k++) if (!first.count((int)k) && p.ops[k].k != "C") mw = std::max(mw, p.ops[k].w);
            vector<uint32_t> bitsInOrder;
            for (uint32_t b = mw; b-- > 0;) bitsInOrder.push_back(b);
            if (varOrder == 1) std::stable_sort(bitsInOrder.begin(), bitsInOrder.end(), [](uint32_t a, uint32_t b) { return a % 64 > b % 64; });
            if (varOrder == 2) std::reverse(bitsInOrder.begin(), bitsInOrder.end());
            for (uint32_t b : bitsInOrder)
                for (size_t k = 0; k < p.ops.size(); k++) {
                    if (first.count((int)k) || p.ops[k].k == "C" || b >= p.ops[k].w) continue;
                    place(k, 1, b); place(k, 0, b);
                }
            for (size_t k = 0; k < p.ops.size(); k++) {
                auto &o = p.ops[k];
                if (o.k != "C") continue;
                for (auto &al : cs[k].chars) {
                    unsigned n = 0;
                    while ((1u << n) < al.size()) n++;
                    Bits idx(n);
                    for (unsigned j = n; j-- > 0;) idx[j] = I.inputVar(level++, "char");
                    Bits ch(8, FF);
                    for (int j = 0; j < 8; j++) if ((al[0] >> j) & 1) ch[j] = TT;
                    for (size_t a = 1; a < al.size(); a++) {
                        Lit e = TT;
                        for (unsigned j = 0; j < n; j++) e = I.And(e, ((a >> j) & 1) ? idx[j] : NOT(idx[j]));
                        Bits c2(8, FF);
                        for (int j = 0; j < 8; j++) if ((al[a] >> j) & 1) c2[j] = TT;
                        ch = I.itev(e, c2, ch);
                    }
                    o.chars.push_back(ch);
                }
            }
            // ---- memory image
            Mem mem;
            uint64_t words = 0;
            for (auto &o : p.ops) words += o.k == "C" ? o.chars.size() : o.k == "I" ? 1 : (uint64_t)((o.w + 63) / 64) * (o.k == "L" ? 2 : 1);
            uint64_t in = I.newObj(mem, std::max<uint64_t>(8, words * 8), "operands");
            uint64_t at = in;
            auto put = [&](const Bits &b) {
                for (size_t i = 0; i < b.size(); i += 64) {
                    Bits w64(b.begin() + i, b.begin() + std::min(b.size(), i + 64));
                    w64.resize(64, FF);
                    I.store(mem, Interp::mkc(64, at), Interp::mk(w64), TT);
                    at += 8;
                }
            };
            for (auto &o : p.ops) {
                if (o.k == "C") { for (auto &c : o.chars) put(c); continue; }
                Bits v = o.v;
                if ((o.k == "I" || (o.s && o.w > 1 && o.w <= 64)) && o.s) v.resize(64, o.v.back());
                if (v.empty()) v.push_back(FF);
                put(v);
                if (o.k == "L") put(o.m);
            }
            uint64_t slots = std::max<uint64_t>(1, p.res.size());
            uint64_t stride = 1024;
            uint64_t outp = I.newObj(mem, slots * stride, "result");
            // ---- reference, and the condition under which the operation is specified at all
            bool effectsOnly = p.get("effects");  // only whether the results depend on unset storage, not their values
            vector<Expect> exp;
            if (!effectsOnly || p.get("assume")) exp = oracle(I, p);
            if (p.get("assume") && !exp.empty()) assume = I.And(exp[0].careV, exp[0].careM);
            if (assume == FF) throw Undecided{"no operand satisfies the precondition"};
            // ---- run the dataflow
            Lit guard = assume;
            I.run(f, {Interp::mkc(64, in), Interp::mkc(64, outp)}, mem, guard);
            auto witness = [&](const std::unordered_map<uint32_t, bool> &asg) {
                std::unordered_map<uint32_t, bool> memo;
                auto ev = [&](Lit l) { return I.evalLit(l, [&](uint32_t v) { auto it = asg.find(v); return it != asg.end() && it->second; }, memo); };
                string s;
                for (auto &o : p.ops) s += (s.empty() ? "" : ", ") + show(o, ev);
                return s;
            };
            auto evalBits = [&](const std::unordered_map<uint32_t, bool> &asg, const Bits &v, const Bits &m) {
                std::unordered_map<uint32_t, bool> memo;
                auto ev = [&](Lit l) { return I.evalLit(l, [&](uint32_t x) { auto it = asg.find(x); return it != asg.end() && it->second; }, memo); };
                string s;
                for (size_t i = v.size(); i-- > 0;) { bool a = ev(v[i]), b = m.empty() ? false : ev(m[i]); s += b ? (a ? 'z' : 'x') : (a ? '1' : '0'); }
                return s;
            };
            // one obligation: bad must be unsatisfiable
            auto check = [&](const string &kind, int slot, Lit bad, const string &loc, const std::function<string(const std::unordered_map<uint32_t, bool> &)> &more) {
                obl++; byKind[kind]++;
                std::unordered_map<uint32_t, bool> asg;
                string why;
                R r = decide(bad, asg, why);
                if (r == NO) { proved++; provedKind[kind]++; }
                else if (r == YES) addViol(kind, slot, "operands " + witness(asg) + (more ? ": " + more(asg) : ""), loc);
                else addUnd(kind, slot, why);
            };
            auto locStr = [&](int l) { return l >= 0 && l < (int)I.locs.size() ? I.locs[l] : string("?"); };
            check("ret", 0, I.And(assume, NOT(guard)), "?", [&](auto &) { return string("the operation does not return"); });
            auto isUnset = [&](uint32_t v) { auto &i = I.info(v); return i.cls == VC::Undef && i.name == "uninitialised"; };
            auto initialised = [&](int slot, const vector<const Bits *> &words, const string &loc) {
                Lit bad = FF;
                for (auto *w : words)
                    for (Lit l : *w) {
                        if (l <= 1) continue;
                        Lit dep = I.And(NOT(I.bdd.Forall(l, isUnset)), NOT(I.bdd.Forall(NOT(l), isUnset)));
                        bad = I.Or(bad, dep);
                    }
                check("uninit", slot, I.And(guard, bad), loc, [&](auto &) { return string("the result depends on storage that was never written"); });
            };
            for (size_t s = 0; s < p.res.size() && guard != FF; s++) {
                auto &rt = p.res[s];
                uint64_t base = outp + s * stride;
                auto word = [&](uint64_t off, int &loc) { Val v = I.load(mem, Interp::mkc(64, base + off), 64, guard); loc = v.loc; return I.bits(v); };
                int loc = -1;
                if (rt.k == "S" && effectsOnly) {
                    Bits len = word(0, loc);
                    initialised((int)s, {&len}, locStr(loc));
                    continue;
                }
                if (rt.k == "S") {
                    const Expect &e = exp.at(s);
                    Bits len = word(0, loc);
                    check("text", (int)s, I.And(guard, NOT(I.eqv(len, e.len))), locStr(loc), [&](auto &a) { return "length " + evalBits(a, len, {}) + " expected " + evalBits(a, e.len, {}); });
                    // characters below the expected length
                    vector<Bits> got;
                    for (size_t i = 0; i < e.chars.size(); i++) { Val c = I.load(mem, Interp::mkc(64, base + 8 + i), 8, guard); got.push_back(I.bits(c)); if (loc < 0) loc = c.loc; }
                    auto text = [&](const std::unordered_map<uint32_t, bool> &a, const vector<Bits> &cs2, const Bits &ln) {
                        string r; uint64_t L = std::stoull("0" + string(), nullptr);
                        string lb = evalBits(a, ln, {}); L = 0; for (char c : lb) L = L * 2 + (c - '0');
                        for (size_t i = 0; i < cs2.size() && i < L; i++) { string b = evalBits(a, cs2[i], {}); int v = 0; for (char c : b) v = v * 2 + (c - '0'); if (v >= 32 && v < 127) r += (char)v; else { char t[8]; snprintf(t, 8, "\\x%02x", v); r += t; } }
                        return r;
                    };
                    Lit okLen = I.eqv(len, e.len);
                    for (size_t i = 0; i < e.chars.size(); i++) {
                        Lit inr = NOT(FF);
                        inr = I.ultv(I.bits(Interp::mkc(64, i)), e.len);
                        check("text", (int)s, I.And(I.And(guard, okLen), I.And(inr, NOT(I.eqv(got[i], e.chars[i])))), locStr(loc), [&](auto &a) { return "text '" + text(a, got, len) + "' expected '" + text(a, e.chars, e.len) + "'"; });
                    }
                    continue;
                }
                Bits hd = word(0, loc);
                auto field = [&](unsigned o, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) { if (hd[o + i] > 1) throw Undecided{"result header not constant"}; v |= (uint64_t)(hd[o + i] & 1) << i; } return v; };
                uint32_t gw = (uint32_t)field(0, 32), gs = (uint32_t)field(32, 8), g4 = (uint32_t)field(40, 8), gk = (uint32_t)field(48, 8);
                if (rt.frame >= 0) {
                    auto &o = p.ops[rt.frame];
                    int l1, l2 = -1;
                    uint32_t nl = (o.w + 63) / 64;
                    Bits v, m;
                    for (uint32_t i = 0; i < nl; i++) { Bits t = word(8 + 8 * i, l1); v.insert(v.end(), t.begin(), t.end()); }
                    if (o.k == "L") for (uint32_t i = 0; i < nl; i++) { Bits t = word(8 + 8 * (nl + i), l2); m.insert(m.end(), t.begin(), t.end()); }
                    Lit bad = FF;
                    for (uint32_t i = 0; i < o.w; i++) { bad = I.Or(bad, I.Xor(v[i], o.v[i])); if (o.k == "L") bad = I.Or(bad, I.Xor(m[i], o.m[i])); }
                    check("frame", (int)s, I.And(guard, bad), locStr(l1), [&](auto &) { return "operand " + std::to_string(rt.frame) + " is modified"; });
                    continue;
                }
                string want = std::to_string(rt.w) + (rt.k == "I" ? "-bit number" : rt.s ? "-bit signed " : "-bit unsigned ") + (rt.k == "I" ? "" : rt.k == "L" ? "four-state" : "two-state");
                string have = std::to_string(gw) + (gk == 2 ? "-bit number" : gs ? "-bit signed " : "-bit unsigned ") + (gk == 2 ? "" : g4 ? "four-state" : "two-state");
                bool anyType = p.get("anytype");
                // 1-bit results: signedness of a single bit is not observable
                bool typeOk = gw == rt.w && (rt.k == "I" || gw == 1 || gs == (uint32_t)rt.s || p.get("anysign")) && (rt.k == "I" ? gk == 2 : (gk != 2 && (g4 == 1) == (rt.k == "L")));
                if (!anyType) {
                    obl++; byKind["type"]++;
                    if (typeOk) { proved++; provedKind["type"]++; }
                    else addViol("type", (int)s, "result is " + have + ", expected " + want, "?");
                }
                uint32_t nl = (gw + 63) / 64;
                if (8 + 16ull * nl > stride) throw Undecided{"result too wide"};
                Bits v, m;
                int lv = -1, lm = -1, t;
                for (uint32_t i = 0; i < nl; i++) { Bits x = word(8 + 8 * i, t); if (t >= 0) lv = t; v.insert(v.end(), x.begin(), x.end()); }
                if (g4) for (uint32_t i = 0; i < nl; i++) { Bits x = word(8 + 8 * (nl + i), t); if (t >= 0) lm = t; m.insert(m.end(), x.begin(), x.end()); }
                {
                    Bits gv(v.begin(), v.begin() + std::min<size_t>(gw, v.size())), gm(m.begin(), m.begin() + std::min<size_t>(gw, m.size()));
                    initialised((int)s, {&gv, &gm}, locStr(lv));
                }
                if (effectsOnly) continue;
                if (gk != 2) {
                    // canonical storage beyond the width
                    Lit bad = FF;
                    bool sx = gs && gw > 1 && gw <= 64;
                    for (size_t i = gw; i < v.size(); i++) bad = I.Or(bad, sx ? I.Xor(v[i], v[gw - 1]) : v[i]);
                    for (size_t i = gw; i < m.size(); i++) bad = I.Or(bad, m[i]);
                    if (v.size() > gw) check("pad", (int)s, I.And(guard, bad), locStr(lv), [&](auto &a) { return "stored words " + evalBits(a, v, {}) + (g4 ? " / " + evalBits(a, m, {}) : "") + " of a " + have + " vector"; });
                }
                if (s >= exp.size() || !exp[s].have) continue;
                const Expect &e = exp[s];
                uint32_t cw = std::min<uint32_t>(gw, (uint32_t)e.v.size());
                auto more = [&](const std::unordered_map<uint32_t, bool> &a) {
                    Bits gv(v.begin(), v.begin() + gw), gm;
                    if (g4) gm.assign(m.begin(), m.begin() + gw);
                    return "result " + evalBits(a, gv, gm) + " expected " + evalBits(a, e.v, e.m);
                };
                if (gw != e.v.size()) { addUnd(e.kv, (int)s, "result has another width"); obl++; byKind[e.kv]++; }
                // single bit of value and mask, one obligation each
                for (uint32_t i = 0; i < cw; i++) {
                    check(e.kv, (int)s, I.And(I.And(guard, e.careV), I.Xor(v[i], e.v[i])), locStr(lv), more);
                    if (!viol.empty() && viol.back().getAsObject()->getString("kind") == e.kv) break;
                }
                if (g4)
                    for (uint32_t i = 0; i < cw; i++) {
                        check(e.km, (int)s, I.And(I.And(guard, e.careM), I.Xor(m[i], e.m[i])), locStr(lm), more);
                        if (!viol.empty() && viol.back().getAsObject()->getString("kind") == e.km) break;
                    }
                else {
                    Lit bad = FF;
                    for (uint32_t i = 0; i < cw; i++) bad = I.Or(bad, e.m[i]);
                    check(e.km, (int)s, I.And(I.And(guard, e.careM), bad), locStr(lv), more);
                }
                if (g4 && e.careX != FF) {
                    Lit bad = FF;
                    for (uint32_t i = 0; i < cw; i++) bad = I.Or(bad, v[i]);
                    check(e.kx, (int)s, I.And(I.And(guard, e.careX), bad), locStr(lv), more);
                }
            }
        } catch (Undecided &u) {
            und = u.why;
        } catch (TooBig &) {
            und = "Boolean function too large";
            tooBig = true;
        }
        if (!und.empty()) out["undecided"] = und;
        // forbidden effects; their conditions are exact even if the analysis of the result stopped early
        try {
            for (auto &e : I.events) {
                std::unordered_map<uint32_t, bool> asg;
                string why;
                R r = decide(I.And(assume, e.cond), asg, why);
                if (r == YES) {
                    std::unordered_map<uint32_t, bool> memo;
                    auto ev = [&](Lit l) { return I.evalLit(l, [&](uint32_t v) { auto it = asg.find(v); return it != asg.end() && it->second; }, memo); };
                    string s;
                    for (auto &o : p.ops) s += (s.empty() ? "" : ", ") + show(o, ev);
                    addViol("event:" + e.kind, 0, "operands " + s + ": " + e.kind, e.loc >= 0 && e.loc < (int)I.locs.size() ? I.locs[e.loc] : "?");
                } else if (r == MAYBE) addUnd("event:" + e.kind, 0, why);
            }
        } catch (TooBig &) {}
        json::Object bk, pk;
        for (auto &[k, n] : byKind) bk[k] = n;
        for (auto &[k, n] : provedKind) pk[k] = n;
        out["obligations"] = (int64_t)obl;
        out["proved"] = (int64_t)proved;
        out["kinds"] = std::move(bk);
        out["provedKinds"] = std::move(pk);
        out["violations"] = std::move(viol);
        out["undecidedObs"] = std::move(undec);
        out["blocks"] = (int64_t)(I.blocks - b0);
        out["instrs"] = (int64_t)(I.instrs - i0);
        out["nodes"] = (int64_t)I.bdd.size();
        out["ms"] = (int64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
        return out;
    }
};

int work(const string &job) {
    auto buf = MemoryBuffer::getFile(job);
    if (!buf) { errs() << "cannot read " << job << "\n"; return 2; }
    auto js = json::parse((*buf)->getBuffer());
    if (!js) { errs() << toString(js.takeError()) << "\n"; return 2; }
    auto *J = js->getAsObject();
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    for (auto &b : *J->getArray("bc")) {
        SMDiagnostic err;
        auto m = parseIRFile(b.getAsString()->str(), err, ctx);
        if (!m) { err.print("vpa", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
    }
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        FunctionPassManager fpm;
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        ModulePassManager mpm;
        mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
        mpm.run(*M, mam);
    }
    Interp I(*M);
    Runner R{I, *M};
    for (auto &pv : *J->getArray("probes")) {
        auto *po = pv.getAsObject();
        Probe p;
        p.id = po->getString("id")->str();
        p.fn = po->getString("fn")->str();
        p.op = po->getString("op")->str();
        for (auto &x : *po->getArray("ops")) {
            auto *o = x.getAsObject();
            Operand q;
            q.k = o->getString("k")->str();
            q.w = (uint32_t)o->getInteger("w").value_or(0);
            q.s = o->getBoolean("s").value_or(false);
            p.ops.push_back(q);
        }
        for (auto &x : *po->getArray("res")) {
            auto *o = x.getAsObject();
            ResType r;
            r.k = o->getString("k")->str();
            r.w = (uint32_t)o->getInteger("w").value_or(0);
            r.s = o->getBoolean("s").value_or(false);
            r.frame = (int)o->getInteger("frame").value_or(-1);
            p.res.push_back(r);
        }
        if (auto *q = po->getObject("p")) for (auto &kv : *q) if (auto i = kv.second.getAsInteger()) p.p[kv.first.str()] = *i;
        if (auto *q = po->getObject("ps")) for (auto &kv : *q) if (auto i = kv.second.getAsString()) p.ps[kv.first.str()] = i->str();
        if (auto *q = po->getArray("first")) for (auto &x : *q) p.first.push_back((int)*x.getAsInteger());
        for (auto &cv : *po->getArray("cells")) {
            auto *co = cv.getAsObject();
            vector<CellOp> cs;
            if (auto *a = co->getArray("ops"))
                for (auto &x : *a) {
                    auto *o = x.getAsObject();
                    CellOp c;
                    if (auto s = o->getString("v")) c.v = s->str();
                    if (auto s = o->getString("m")) c.m = s->str();
                    if (auto *ch = o->getArray("chars")) for (auto &y : *ch) c.chars.push_back(y.getAsString()->str());
                    cs.push_back(c);
                }
            cs.resize(p.ops.size());
            string line;
            raw_string_ostream os(line);
            os << json::Value(R.cell(p, cs, co->getString("id").value_or("0").str()));
            printf("%s\n", line.c_str());
            fflush(stdout);
        }
    }
    json::Object fin;
    json::Array fs;
    for (auto &f : I.fnsSeen) {
        Function *F2 = M->getFunction(f);
        string d = demangle(f);
        bool lib = false;
        if (F2) if (auto *sp = F2->getSubprogram()) lib = sp->getFilename().contains("/repo/") || sp->getDirectory().contains("/repo");
        if (lib) fs.push_back(d);
    }
    fin["functions"] = std::move(fs);
    if (getenv("VPA_LINES")) {  // audit: every source line some analysed path reaches
        json::Array ls;
        for (auto &l : I.locs) ls.push_back(l);
        fin["lines"] = std::move(ls);
    }
    string line;
    raw_string_ostream os(line);
    os << json::Value(std::move(fin));
    printf("%s\n", line.c_str());
    return 0;
}
struct TArg { string job; int rc; };
}  // namespace

int main(int argc, char **argv) {
    if (argc < 2) return 2;
    TArg a{argv[1], 0};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    if (pthread_create(&t, &at, [](void *x) -> void * { auto *a = (TArg *)x; a->rc = work(a->job); return nullptr; }, &a)) return 2;
    pthread_join(t, nullptr);
    fflush(stdout);
    _exit(a.rc);
}
