#include "interp.hh"

#include <cxxabi.h>
#include <cmath>

using namespace llvm;
using std::string;
using std::vector;
#undef F
static constexpr Lit FF = 0, TT = 1;

string demangle(const string &s) {
    int st = 0;
    char *p = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    string r = p ? p : s;
    free(p);
    return r;
}

Interp::Interp(Module &m) : M(m), DL(m.getDataLayout()) { reset(); }

void Interp::reset() {
    bdd.reset();
    events.clear(); evIdx.clear();
    ufs.clear(); inputs.clear(); extra.clear(); ufMemo_.clear(); constMemo_.clear();
    globals_.clear(); gid_.clear(); faddr_.clear(); streams.clear();
    nextId_ = 16; depth_ = 0; blocks = 0; curLoc_ = -1; allowGlobalStore = false;
}

// ---------------------------------------------------------------- domain
static uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
Val Interp::mkc(uint32_t w, uint64_t c) {
    Val v;
    v.w = w;
    if (w <= 64) { v.conc = true; v.c = c & maskw(w); }
    else {
        Bits b(w, FF);
        for (int i = 0; i < 64; i++) b[i] = (c >> i) & 1;
        v.b = std::make_shared<const Bits>(std::move(b));
    }
    return v;
}
Val Interp::mk(Bits b) {
    Val v;
    v.w = (uint32_t)b.size();
    if (v.w <= 64) {
        uint64_t c = 0;
        bool k = true;
        for (uint32_t i = 0; i < v.w; i++) {
            if (b[i] > 1) { k = false; break; }
            c |= (uint64_t)b[i] << i;
        }
        if (k) { v.conc = true; v.c = c; return v; }
    }
    v.b = std::make_shared<const Bits>(std::move(b));
    return v;
}
Interp::Bits Interp::bits(const Val &v) {
    if (!v.conc) return *v.b;
    Bits b(v.w);
    for (uint32_t i = 0; i < v.w; i++) b[i] = (v.c >> i) & 1;
    return b;
}
Interp::Bits Interp::addv(const Bits &a, const Bits &b, Lit c, Lit *cout) {
    Bits r(a.size());
    for (size_t i = 0; i < a.size(); i++) {
        Lit x = Xor(a[i], b[i]);
        r[i] = Xor(x, c);
        if (i + 1 < a.size() || cout) c = Ite(x, c, a[i]);
    }
    if (cout) *cout = c;
    return r;
}
Interp::Bits Interp::notv(Bits a) { for (auto &x : a) x = NOT(x); return a; }
Interp::Bits Interp::negv(const Bits &a) { return addv(Bits(a.size(), FF), notv(a), TT); }
Interp::Bits Interp::itev(Lit c, const Bits &a, const Bits &b) {
    if (c == TT) return a;
    if (c == FF) return b;
    Bits r(a.size());
    for (size_t i = 0; i < a.size(); i++) r[i] = a[i] == b[i] ? a[i] : Ite(c, a[i], b[i]);
    return r;
}
Interp::Bits Interp::shlc(const Bits &a, uint64_t n) {
    Bits r(a.size(), FF);
    for (size_t i = n; i < a.size(); i++) r[i] = a[i - n];
    return r;
}
Lit Interp::eqv(const Bits &a, const Bits &b) {
    Lit r = TT;
    for (size_t i = 0; i < a.size() && r != FF; i++) r = And(r, NOT(Xor(a[i], b[i])));
    return r;
}
Lit Interp::orv(const Bits &a) {
    Lit r = FF;
    for (auto x : a) r = Or(r, x);
    return r;
}
Lit Interp::ultv(const Bits &a, const Bits &b) {
    Lit r = FF;
    for (size_t i = 0; i < a.size(); i++) r = Ite(Xor(a[i], b[i]), b[i], r);
    return r;
}
Lit Interp::sltv(const Bits &a, const Bits &b) {
    Bits x = a, y = b;
    x.back() = NOT(x.back()); y.back() = NOT(y.back());
    return ultv(x, y);
}
Val Interp::merge(Lit c, const Val &a, const Val &b) {
    if (c == TT || (a.conc && b.conc && a.c == b.c && a.w == b.w)) return a;
    if (c == FF) return b;
    if (a.b && a.b == b.b) return a;
    if (a.el || b.el) {
        if (!a.el || !b.el || a.el->size() != b.el->size()) return a.el ? a : b;
        if (a.el == b.el) return a;
        auto v = std::make_shared<vector<Val>>();
        for (size_t i = 0; i < a.el->size(); i++) v->push_back(merge(c, (*a.el)[i], (*b.el)[i]));
        Val r; r.el = v; r.loc = a.loc;
        return r;
    }
    if (a.w != b.w) return a.w ? a : b;  // a value that is dead on one side
    Bits r(a.w);
    for (uint32_t i = 0; i < a.w; i++) { Lit x = a.bit(i), y = b.bit(i); r[i] = x == y ? x : Ite(c, x, y); }
    Val v = mk(std::move(r));
    v.loc = a.conc && !b.conc ? b.loc : a.loc;
    return v;
}
uint32_t Interp::inputVar(uint32_t level, const string &name) {
    inputs[level] = {VC::Input, name};
    return bdd.var(level);
}
Lit Interp::fresh(VC cls, const string &name) {
    extra.push_back({cls, name});
    return bdd.var(EXTRA + (uint32_t)extra.size() - 1);
}
VarInfo &Interp::info(uint32_t v) { return v >= EXTRA ? extra[v - EXTRA] : inputs[v]; }

bool Interp::smallSupport(const Bits &a, const Bits &b, vector<uint32_t> &vars, size_t max) {
    vector<char> sv;
    std::unordered_map<uint32_t, char> seen;
    // EXTRA variables are large indices: remap through a set
    std::set<uint32_t> out;
    std::set<uint32_t> done;
    vector<uint32_t> st;
    for (auto *v : {&a, &b}) for (auto x : *v) if (x > 1) st.push_back(x >> 1);
    while (!st.empty()) {
        uint32_t n = st.back(); st.pop_back();
        if (!n || !done.insert(n).second) continue;
        Lit l = n << 1;
        out.insert(bdd.top(l));
        if (out.size() > max) return false;
        st.push_back(bdd.hi(l) >> 1);
        st.push_back(bdd.lo(l) >> 1);
    }
    vars.assign(out.begin(), out.end());
    return true;
}
Interp::Bits Interp::tabulate(const Bits &a, const Bits &b, vector<uint32_t> vars, uint32_t w, const std::function<void(const vector<char> &, const vector<char> &, vector<char> &)> &f) {
    std::function<Bits(size_t, const Bits &, const Bits &)> rec = [&](size_t i, const Bits &x, const Bits &y) -> Bits {
        if (i == vars.size()) {
            vector<char> ca(x.begin(), x.end()), cb(y.begin(), y.end()), r(w);
            f(ca, cb, r);
            return Bits(r.begin(), r.end());
        }
        Bits x0 = x, x1 = x, y0 = y, y1 = y;
        for (size_t k = 0; k < x.size(); k++) if (x[k] > 1 && bdd.top(x[k]) == vars[i]) { x1[k] = bdd.hi(x[k]); x0[k] = bdd.lo(x[k]); }
        for (size_t k = 0; k < y.size(); k++) if (y[k] > 1 && bdd.top(y[k]) == vars[i]) { y1[k] = bdd.hi(y[k]); y0[k] = bdd.lo(y[k]); }
        Bits r0 = rec(i + 1, x0, y0);
        if (x0 == x1 && y0 == y1) return r0;
        Bits r1 = rec(i + 1, x1, y1), r(w);
        for (uint32_t k = 0; k < w; k++) r[k] = bdd.mk(vars[i], r1[k], r0[k]);
        return r;
    };
    return rec(0, a, b);
}
void bigMul(const vector<char> &a, const vector<char> &b, vector<char> &r) {
    size_t n = r.size();
    vector<int> acc(n + 1, 0);
    for (size_t i = 0; i < n && i < a.size(); i++) if (a[i]) for (size_t j = 0; i + j < n && j < b.size(); j++) acc[i + j] += b[j];
    int c = 0;
    for (size_t i = 0; i < n; i++) { c += acc[i]; r[i] = c & 1; c >>= 1; }
}
void bigDivRem(int op, const vector<char> &a0, const vector<char> &b0, vector<char> &r) {
    auto a = a0, b = b0;
    size_t n = a.size();
    auto neg = [&](vector<char> &x) { int c = 1; for (auto &v : x) { int t = (v ? 0 : 1) + c; v = t & 1; c = t >> 1; } };
    bool sa = false, sb = false;
    if (op == UF_SDIV || op == UF_SREM) {
        sa = a.back(); sb = b.back();
        if (sa) neg(a);
        if (sb) neg(b);
    }
    vector<char> q(n, 0), m(n + 1, 0);
    auto bb = b; bb.push_back(0);
    for (size_t i = n; i-- > 0;) {
        for (size_t k = n; k > 0; k--) m[k] = m[k - 1];
        m[0] = a[i];
        bool ge = true;
        for (size_t k = n + 1; k-- > 0;) if (m[k] != bb[k]) { ge = m[k] > bb[k]; break; }
        if (ge) {
            int br = 0;
            for (size_t k = 0; k <= n; k++) { int t = m[k] - bb[k] - br; br = t < 0; m[k] = t & 1; }
            q[i] = 1;
        }
    }
    m.resize(n);
    if (op == UF_UDIV || op == UF_SDIV) { if (sa != sb) neg(q); r = q; }
    else { if (sa) neg(m); r = m; }
}
Interp::Bits Interp::mulv(const Bits &a, const Bits &b) {
    size_t w = a.size();
    auto allc = [](const Bits &x) { for (auto l : x) if (l > 1) return false; return true; };
    const Bits *cst = allc(a) ? &a : allc(b) ? &b : nullptr;
    if (cst) {
        const Bits &o = cst == &a ? b : a;
        int pop = 0;
        for (auto x : *cst) pop += x == TT;
        if (pop == 0) return Bits(w, FF);
        vector<uint32_t> vars;
        if (pop <= 2 || smallSupport(a, b, vars, 20)) {
            Bits r(w, FF);
            for (size_t i = 0; i < w; i++) if ((*cst)[i] == TT) r = addv(r, shlc(o, i), FF);
            return r;
        }
    }
    vector<uint32_t> vars;
    if (smallSupport(a, b, vars, 12)) return tabulate(a, b, vars, (uint32_t)w, bigMul);
    // low part known zero: factor the trailing zeros out so that equal products meet
    size_t ta = 0, tb = 0;
    while (ta < w && a[ta] == FF) ta++;
    while (tb < w && b[tb] == FF) tb++;
    if (ta + tb >= w) return Bits(w, FF);
    Bits A(a.begin() + ta, a.end()), B(b.begin() + tb, b.end());
    if (B < A) std::swap(A, B);
    Bits r(w, FF);
    for (size_t j = 0; j + ta + tb < w; j++) {
        Bits x(A.begin(), A.begin() + std::min(j + 1, A.size())), y(B.begin(), B.begin() + std::min(j + 1, B.size()));
        while (!x.empty() && x.back() == FF) x.pop_back();
        while (!y.empty() && y.back() == FF) y.pop_back();
        if (y < x) std::swap(x, y);
        if (x.empty() || j > x.size() + y.size() - 1) { r[j + ta + tb] = FF; continue; }
        if (j == 0) { r[ta + tb] = And(x[0], y[0]); continue; }
        vector<uint32_t> key{UF_MUL, (uint32_t)j, (uint32_t)x.size()};
        key.insert(key.end(), x.begin(), x.end());
        key.insert(key.end(), y.begin(), y.end());
        auto &l = ufMemo_[key];
        if (!l) {
            ufs.push_back({UF_MUL, x, y});
            l = fresh(VC::UF, "mul");
            extra.back().uf = (int)ufs.size() - 1;
            extra.back().ufbit = (uint32_t)j;
        }
        r[j + ta + tb] = l;
    }
    return r;
}
Interp::Bits Interp::divv(int op, const Bits &a0, const Bits &b0) {
    size_t w = a0.size();
    vector<uint32_t> vars;
    if (smallSupport(a0, b0, vars, 12))
        return tabulate(a0, b0, vars, (uint32_t)w, [op](const vector<char> &x, const vector<char> &y, vector<char> &r) {
            bool z = true;
            for (auto c : y) z &= !c;
            if (z) { std::fill(r.begin(), r.end(), 0); return; }
            bigDivRem(op, x, y, r);
        });
    Bits a = a0, b = b0;
    bool sg = op == UF_SDIV || op == UF_SREM;
    if (sg && a.back() == FF && b.back() == FF) { op = op == UF_SDIV ? UF_UDIV : UF_UREM; sg = false; }
    if (!sg) {
        while (a.size() > 1 && a.back() == FF && b.back() == FF) { a.pop_back(); b.pop_back(); }
        // constant power of two divisor
        int pop = 0, at = -1;
        bool cst = true;
        for (size_t i = 0; i < b.size(); i++) { if (b[i] > 1) cst = false; else if (b[i] == TT) { pop++; at = (int)i; } }
        if (cst && pop == 1) {
            Bits r(w, FF);
            for (size_t i = 0; i < a.size(); i++) {
                if (op == UF_UDIV) { if (i + at < a.size()) r[i] = a[i + at]; }
                else if ((int)i < at) r[i] = a[i];
            }
            return r;
        }
    } else {
        // keep one copy of the sign: apart from the divisor -1, the quotient of k-bit operands has k bits
        while (a.size() > 2 && a.back() == a[a.size() - 2] && b.back() == b[b.size() - 2]) { a.pop_back(); b.pop_back(); }
    }
    bool isdiv = op == UF_SDIV || op == UF_UDIV;
    Lit one = b[0], mone = sg ? TT : FF;
    for (size_t i = 1; i < b.size(); i++) one = And(one, NOT(b[i]));
    if (sg) for (auto l : b) mone = And(mone, l);
    Bits r(w, FF);
    for (size_t j = 0; j < w; j++) {
        if (j >= a.size()) { r[j] = sg ? r[a.size() - 1] : FF; continue; }
        vector<uint32_t> key{(uint32_t)op, (uint32_t)j, (uint32_t)a.size()};
        key.insert(key.end(), a.begin(), a.end());
        key.insert(key.end(), b.begin(), b.end());
        auto &l = ufMemo_[key];
        if (!l) {
            ufs.push_back({op, a, b});
            l = fresh(VC::UF, "div");
            extra.back().uf = (int)ufs.size() - 1;
            extra.back().ufbit = (uint32_t)j;
        }
        r[j] = l;
    }
    r = itev(one, isdiv ? a0 : Bits(w, FF), r);
    if (mone != FF) r = itev(mone, isdiv ? negv(a0) : Bits(w, FF), r);
    return r;
}
bool Interp::evalLit(Lit f, const std::function<bool(uint32_t)> &in, std::unordered_map<uint32_t, bool> &memo) {
    while (f > 1) {
        uint32_t v = bdd.top(f);
        bool b;
        if (v < EXTRA) b = in(v);
        else {
            auto it = memo.find(v);
            if (it != memo.end()) b = it->second;
            else {
                auto &x = extra[v - EXTRA];
                b = false;
                if (x.cls == VC::UF) {
                    UfDef d = ufs[x.uf];
                    vector<char> A, B;
                    for (auto l : d.a) A.push_back(evalLit(l, in, memo));
                    for (auto l : d.b) B.push_back(evalLit(l, in, memo));
                    vector<char> r(d.op == UF_MUL ? x.ufbit + 1 : A.size(), 0);
                    if (d.op == UF_MUL) bigMul(A, B, r);
                    else {
                        bool z = true;
                        for (auto c : B) z &= !c;
                        if (!z) bigDivRem(d.op, A, B, r);
                    }
                    b = r[x.ufbit];
                } else b = in(v);
                memo[v] = b;
            }
        }
        f = b ? bdd.hi(f) : bdd.lo(f);
    }
    return f == TT;
}
vector<std::pair<Lit, uint64_t>> Interp::enumerate(const Val &v, Lit guard, size_t max) {
    vector<std::pair<Lit, uint64_t>> out;
    if (v.conc) { out.push_back({TT, v.c}); return out; }
    if (v.w > 64) throw Undecided{"enumeration of a wide value"};
    std::function<void(int, Lit, uint64_t)> rec = [&](int i, Lit g, uint64_t c) {
        if (g == FF) return;
        if (i < 0) {
            out.push_back({g, c});
            if (out.size() > max) throw Undecided{"too many possible addresses or lengths"};
            return;
        }
        Lit b = v.bit(i);
        rec(i - 1, And(g, NOT(b)), c);
        rec(i - 1, And(g, b), c | 1ull << i);
    };
    rec((int)v.w - 1, guard, 0);
    return out;
}

// ---------------------------------------------------------------- memory
void Interp::event(const string &kind, Lit cond) {
    if (cond == FF) return;
    auto k = std::make_pair(kind, curLoc_);
    auto it = evIdx.find(k);
    if (it == evIdx.end()) { evIdx[k] = events.size(); events.push_back({kind, curLoc_, cond}); }
    else events[it->second].cond = Or(events[it->second].cond, cond);
}
uint64_t Interp::newObj(Mem &mem, uint64_t size, const string &name, bool uninit) {
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->name = name;
    if (size > (1u << 16)) throw Undecided{"allocation of " + std::to_string(size) + " bytes"};
    o->bits.assign(size * 8, uninit ? UNINIT : FF);
    o->loc.assign(size, -1);
    uint32_t id = nextId_++;
    mem[id] = o;
    return addrOf(id);
}
Obj *Interp::objAt(Mem &mem, uint64_t addr, uint64_t n, uint64_t &off, bool write) {
    uint32_t id = (uint32_t)(addr >> 32);
    std::shared_ptr<Obj> *p = nullptr;
    auto it = mem.find(id);
    if (it != mem.end()) p = &it->second;
    else {
        auto g = globals_.find(id);
        if (g == globals_.end()) return nullptr;
        if (write) p = &(mem[id] = g->second);
        else p = &g->second;
    }
    off = (addr & 0xffffffffu) - 0x1000;
    if (off > (*p)->size || n > (*p)->size - off) return nullptr;
    if ((*p)->freed) return nullptr;
    if (write && p->use_count() > 1) *p = std::make_shared<Obj>(**p);
    return p->get();
}
Val Interp::load(Mem &mem, const Val &p, uint32_t w, Lit guard, bool) {
    uint64_t n = (w + 7) / 8;
    auto one = [&](uint64_t addr, Lit g) -> Val {
        uint64_t off;
        Obj *o = objAt(mem, addr, n, off, false);
        if (!o) {
            event("out-of-bounds read", g);
            Bits r(w);
            for (auto &x : r) x = fresh(VC::Undef, "oob");
            return mk(r);
        }
        Bits r(w);
        bool un = false;
        for (uint32_t i = 0; i < w; i++) if ((r[i] = o->bits[off * 8 + i]) == UNINIT) un = true;
        int loc = n ? o->loc[off] : -1;
        if (un) {
            o = objAt(mem, addr, n, off, true);
            for (uint32_t i = 0; i < w; i++) if (r[i] == UNINIT) r[i] = o->bits[off * 8 + i] = fresh(VC::Undef, "uninitialised");
        }
        if (o->global && !o->constant && !o->guarded && !allowGlobalStore) event("read of a mutable global", g);
        Val v = mk(std::move(r));
        v.loc = loc;
        return v;
    };
    if (p.conc) return one(p.c, guard);
    auto e = enumerate(p, guard, 256);
    if (e.empty()) return mkc(w, 0);
    Val r = one(e[0].second, e[0].first);
    for (size_t i = 1; i < e.size(); i++) {
        Val x = one(e[i].second, e[i].first);
        r = merge(bdd.Restrict(e[i].first, guard), x, r);
    }
    return r;
}
void Interp::store(Mem &mem, const Val &p, const Val &v, Lit guard, Lit cond) {
    uint64_t n = (v.w + 7) / 8;
    auto one = [&](uint64_t addr, Lit sel, Lit g) {
        uint64_t off;
        Obj *o = objAt(mem, addr, n, off, true);
        if (!o) { event("out-of-bounds write", g); return; }
        if (o->constant) { event("write to constant storage", g); return; }
        if (o->global && !allowGlobalStore) event("write to a global variable", g);
        for (uint32_t i = 0; i < n * 8; i++) {
            Lit nv = i < v.w ? v.bit(i) : FF;
            Lit &d = o->bits[off * 8 + i];
            if (sel == TT || d == UNINIT) {
                if (sel != TT && d == UNINIT) { d = fresh(VC::Undef, "uninitialised"); d = Ite(sel, nv, d); }
                else d = nv;
            } else if (d != nv) d = Ite(sel, nv, d);
        }
        for (uint64_t i = 0; i < n; i++) o->loc[off + i] = v.loc >= 0 ? v.loc : curLoc_;
    };
    if (cond == TT && p.conc) { one(p.c, TT, guard); return; }
    Lit eff = And(cond, guard);
    if (eff == FF) return;
    if (p.conc) { one(p.c, bdd.Restrict(eff, guard), eff); return; }
    for (auto &[g, a] : enumerate(p, eff, 256)) one(a, bdd.Restrict(g, guard), g);
}
Val Interp::loadType(Mem &mem, const Val &p, Type *t, Lit guard) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto v = std::make_shared<vector<Val>>();
        auto *sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            Val q = mk(addv(bits(p), bits(mkc(64, sl->getElementOffset(i))), FF));
            v->push_back(loadType(mem, q, st->getElementType(i), guard));
        }
        Val r; r.el = v;
        return r;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        auto v = std::make_shared<vector<Val>>();
        for (unsigned i = 0; i < at->getNumElements(); i++) {
            Val q = mk(addv(bits(p), bits(mkc(64, i * DL.getTypeAllocSize(at->getElementType()))), FF));
            v->push_back(loadType(mem, q, at->getElementType(), guard));
        }
        Val r; r.el = v;
        return r;
    }
    return load(mem, p, width(t), guard, t->isPointerTy());
}
void Interp::storeType(Mem &mem, const Val &p, const Val &v, Type *t, Lit guard) {
    if (!v.el) { store(mem, p, v, guard); return; }
    for (unsigned i = 0; i < v.el->size(); i++) {
        uint64_t off;
        Type *et;
        if (auto *st = dyn_cast<StructType>(t)) { off = DL.getStructLayout(st)->getElementOffset(i); et = st->getElementType(i); }
        else { auto *at = cast<ArrayType>(t); et = at->getElementType(); off = i * DL.getTypeAllocSize(et); }
        Val q = mk(addv(bits(p), bits(mkc(64, off)), FF));
        storeType(mem, q, (*v.el)[i], et, guard);
    }
}
void Interp::copyMem(Mem &mem, const Val &dst, const Val &src, const Val &n, Lit guard, bool) {
    auto copyN = [&](uint64_t d, uint64_t s, uint64_t len, Lit sel, Lit g) {
        if (!len) return;
        uint64_t so, dof;
        Obj *o = objAt(mem, s, len, so, false);
        if (!o) { event("out-of-bounds read", g); throw Undecided{"out-of-bounds copy"}; }
        if (o->global && !o->constant && !o->guarded && !allowGlobalStore) event("read of a mutable global", g);
        Bits tmp(o->bits.begin() + so * 8, o->bits.begin() + (so + len) * 8);
        vector<int> tl(o->loc.begin() + so, o->loc.begin() + so + len);
        Obj *q = objAt(mem, d, len, dof, true);
        if (!q) { event("out-of-bounds write", g); throw Undecided{"out-of-bounds copy"}; }
        if (q->constant) { event("write to constant storage", g); return; }
        if (q->global && !allowGlobalStore) event("write to a global variable", g);
        for (uint64_t i = 0; i < len * 8; i++) {
            Lit &x = q->bits[dof * 8 + i];
            if (sel == TT || x == tmp[i]) x = tmp[i];
            else {
                if (x == UNINIT) x = fresh(VC::Undef, "uninitialised");
                Lit y = tmp[i] == UNINIT ? fresh(VC::Undef, "uninitialised") : tmp[i];
                x = Ite(sel, y, x);
            }
        }
        for (uint64_t i = 0; i < len; i++) q->loc[dof + i] = tl[i] >= 0 ? tl[i] : curLoc_;
    };
    auto N = enumerate(n, guard, 300);
    auto S = src.conc ? vector<std::pair<Lit, uint64_t>>{{TT, src.c}} : enumerate(src, guard, 300);
    auto D = dst.conc ? vector<std::pair<Lit, uint64_t>>{{TT, dst.c}} : enumerate(dst, guard, 300);
    if (N.size() == 1 && S.size() == 1 && D.size() == 1) { copyN(D[0].second, S[0].second, N[0].second, TT, guard); return; }
    // overlapping partial copies would need a snapshot; source and destination differ in practice
    for (auto &[gn, len] : N) for (auto &[gs, s] : S) for (auto &[gd, d] : D) {
        Lit g = And(And(And(gn, gs), gd), guard);
        if (g == FF) continue;
        copyN(d, s, len, bdd.Restrict(g, guard), g);
    }
}
void Interp::setMem(Mem &mem, const Val &dst, const Val &byte, const Val &n, Lit guard) {
    for (auto &[gn, len] : enumerate(n, guard, 300)) {
        for (uint64_t i = 0; i < len; i++) {
            Val q = mk(addv(bits(dst), bits(mkc(64, i)), FF));
            store(mem, q, byte, guard, n.conc ? TT : gn);
        }
    }
}

// ---------------------------------------------------------------- constants and globals
uint32_t Interp::width(Type *t) {
    if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isVoidTy()) return 0;
    throw Undecided{"unsupported type"};
}
Val Interp::undefOf(Type *t, VC cls, const char *nm) {
    if (t->isStructTy() || t->isArrayTy()) {
        auto v = std::make_shared<vector<Val>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v->push_back(undefOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), cls, nm));
        Val r; r.el = v;
        return r;
    }
    uint32_t w = width(t);
    Bits b(w);
    for (auto &x : b) x = fresh(cls, nm);
    return mk(b);
}
Val Interp::globalAddr(const GlobalValue *g) {
    if (auto *ga = dyn_cast<GlobalAlias>(g)) return constant(ga->getAliasee());
    auto it = gid_.find(g);
    if (it != gid_.end()) return mkc(64, addrOf(it->second));
    uint32_t id = nextId_++;
    gid_[g] = id;
    if (auto *f = dyn_cast<Function>(g)) faddr_[id] = f;
    else initGlobal(cast<GlobalVariable>(g), id);
    return mkc(64, addrOf(id));
}
void Interp::initGlobal(const GlobalVariable *g, uint32_t id) {
    auto o = std::make_shared<Obj>();
    o->global = true;
    o->constant = g->isConstant();
    o->name = demangle(g->getName().str());
    // function-local statics with a run-once initialisation guard: reading them is reading a constant
    string gn = g->getName().str();
    if (gn.rfind("_ZGV", 0) == 0) o->guarded = true;
    else if (gn.rfind("_Z", 0) == 0 && M.getNamedValue("_ZGV" + gn.substr(2))) o->guarded = true;
    o->size = g->getValueType()->isSized() ? DL.getTypeAllocSize(g->getValueType()).getFixedValue() : 0;
    o->bits.assign(o->size * 8, FF);
    o->loc.assign(o->size, -1);
    globals_[id] = o;
    if (g->hasInitializer()) writeConst(*o, 0, g->getInitializer());
    else for (auto &x : o->bits) x = fresh(VC::Unknown, "external global");
}
void Interp::writeConst(Obj &o, uint64_t off, const Constant *c) {
    if (isa<ConstantAggregateZero>(c)) return;
    if (isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t sz = DL.getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) writeConst(o, off + i * sz, cd->getElementAsConstant(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t sz = DL.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * sz, ca->getOperand(i));
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    Val v = constant(c);
    for (uint32_t i = 0; i < v.w; i++) o.bits[off * 8 + i] = v.bit(i);
}
Val Interp::constant(const Constant *c) {
    auto it = constMemo_.find(c);
    if (it != constMemo_.end()) return it->second;
    Val r;
    if (auto *i = dyn_cast<ConstantInt>(c)) {
        const APInt &a = i->getValue();
        if (a.getBitWidth() <= 64) r = mkc(a.getBitWidth(), a.getZExtValue());
        else {
            Bits b(a.getBitWidth());
            for (unsigned k = 0; k < a.getBitWidth(); k++) b[k] = a[k];
            r = mk(b);
        }
    } else if (auto *fp = dyn_cast<ConstantFP>(c)) {
        APInt a = fp->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() > 64) throw Undecided{"wide float"};
        r = mkc(a.getBitWidth(), a.getZExtValue());
    } else if (isa<ConstantPointerNull>(c)) r = mkc(64, 0);
    else if (auto *g = dyn_cast<GlobalValue>(c)) r = globalAddr(g);
    else if (isa<ConstantAggregateZero>(c)) {
        std::function<Val(Type *)> z = [&](Type *t) -> Val {
            if (t->isStructTy() || t->isArrayTy()) {
                auto v = std::make_shared<vector<Val>>();
                unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
                for (unsigned i = 0; i < n; i++) v->push_back(z(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
                Val q; q.el = v;
                return q;
            }
            return mkc(width(t), 0);
        };
        r = z(c->getType());
    } else if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        auto v = std::make_shared<vector<Val>>();
        for (unsigned i = 0; i < c->getNumOperands(); i++) v->push_back(constant(cast<Constant>(c->getOperand(i))));
        r.el = v;
    } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        auto v = std::make_shared<vector<Val>>();
        for (unsigned i = 0; i < cd->getNumElements(); i++) v->push_back(constant(cd->getElementAsConstant(i)));
        r.el = v;
    } else if (isa<UndefValue>(c)) return undefOf(c->getType(), VC::Undef, "undef");
    else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(DL, off)) throw Undecided{"constant gep"};
            Val b = constant(cast<Constant>(gep->getPointerOperand()));
            r = mkc(64, b.c + off.getSExtValue());
        } else if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast)
            r = constant(ce->getOperand(0));
        else if (ce->getOpcode() == Instruction::Sub) {
            Val a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1));
            r = mkc(a.w, a.c - b.c);
        } else throw Undecided{"constant expression"};
    } else throw Undecided{"unsupported constant"};
    constMemo_[c] = r;
    return r;
}

// ---------------------------------------------------------------- function structure
FnInfo &Interp::infoOf(const Function *f) {
    auto &p = fns_[f];
    if (p) return *p;
    p = std::make_unique<FnInfo>();
    FnInfo &fi = *p;
    for (auto &a : f->args()) fi.num[&a] = fi.n++;
    for (auto &bb : *f) for (auto &I : bb) if (!I.getType()->isVoidTy()) fi.num[&I] = fi.n++;
    // weak topological order (Bourdoncle)
    std::unordered_map<const BasicBlock *, int> dfn;
    vector<const BasicBlock *> stack;
    int num = 0;
    auto succs = [](const BasicBlock *b) {
        vector<const BasicBlock *> s;
        auto *t = b->getTerminator();
        if (auto *iv = dyn_cast<InvokeInst>(t)) s.push_back(iv->getNormalDest());
        else for (unsigned i = 0; i < t->getNumSuccessors(); i++) s.push_back(t->getSuccessor(i));
        return s;
    };
    std::function<int(const BasicBlock *, std::deque<const BasicBlock *> &)> visit;
    std::function<std::deque<const BasicBlock *>(const BasicBlock *)> component = [&](const BasicBlock *v) {
        std::deque<const BasicBlock *> part;
        for (auto *s : succs(v)) if (!dfn[s]) visit(s, part);
        part.push_front(v);
        return part;
    };
    visit = [&](const BasicBlock *v, std::deque<const BasicBlock *> &part) -> int {
        stack.push_back(v);
        int head = dfn[v] = ++num;
        bool loop = false;
        for (auto *s : succs(v)) {
            int m = dfn[s] ? dfn[s] : visit(s, part);
            if (m <= head) { head = m; loop = true; }
        }
        if (head == dfn[v]) {
            dfn[v] = INT32_MAX;
            auto *e = stack.back();
            stack.pop_back();
            if (loop) {
                while (e != v) { dfn[e] = 0; e = stack.back(); stack.pop_back(); }
                auto c = component(v);
                part.insert(part.begin(), c.begin(), c.end());
            } else part.push_front(v);
        }
        return head;
    };
    std::deque<const BasicBlock *> part;
    visit(&f->getEntryBlock(), part);
    for (auto *b : part) { fi.pos[b] = (int)fi.order.size(); fi.order.push_back(b); }
    // liveness
    size_t nb = fi.order.size();
    vector<vector<bool>> in(nb, vector<bool>(fi.n)), out(nb, vector<bool>(fi.n));
    auto numOf = [&](const Value *v) { auto it = fi.num.find(v); return it == fi.num.end() ? -1 : it->second; };
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t k = nb; k-- > 0;) {
            auto *b = fi.order[k];
            vector<bool> o(fi.n);
            for (auto *s : succs(b)) {
                auto &si = in[fi.pos[s]];
                for (int i = 0; i < fi.n; i++) if (si[i]) o[i] = true;
                for (auto &phi : s->phis()) {
                    int d = numOf(&phi);
                    (void)d;
                    int x = numOf(phi.getIncomingValueForBlock(b));
                    if (x >= 0) o[x] = true;
                }
            }
            auto i = o;
            for (auto it = b->rbegin(); it != b->rend(); ++it) {
                int d = numOf(&*it);
                if (d >= 0) i[d] = false;
                if (isa<PHINode>(&*it)) continue;
                for (auto &op : it->operands()) { int x = numOf(op.get()); if (x >= 0) i[x] = true; }
            }
            if (i != in[k]) { in[k] = i; ch = true; }
        }
    }
    fi.merge.resize(nb);
    for (size_t k = 0; k < nb; k++) {
        for (int i = 0; i < fi.n; i++) if (in[k][i]) fi.merge[k].push_back(i);
        for (auto &phi : fi.order[k]->phis()) { int d = numOf(&phi); if (!in[k][d]) fi.merge[k].push_back(d); }
    }
    return fi;
}
int Interp::locFor(const Instruction *I, int caller) {
    auto *dl = I->getDebugLoc().get();
    if (!dl) return caller;
    auto it = locOf_.find(dl);
    if (it == locOf_.end()) {
        int id = -1;
        string file = dl->getFilename().str();
        if (!file.empty() && file[0] != '/') file = dl->getDirectory().str() + "/" + file;
        auto inRepo = file.find("/repo/") != string::npos || file.find("/logic/") != string::npos;
        if (inRepo) {
            auto p = file.find("/repo/");
            if (p != string::npos) file = file.substr(p + 6);
            string fn;
            if (auto *sp = dl->getScope()->getSubprogram()) fn = sp->getName().str();
            string s = file + ":" + std::to_string(dl->getLine()) + " (" + fn + ")";
            auto [q, ins] = locIds_.try_emplace(s, (int)locs.size());
            if (ins) locs.push_back(s);
            id = q->second;
        }
        it = locOf_.emplace(dl, id).first;
    }
    return it->second >= 0 ? it->second : caller;
}
Val Interp::get(const Value *v, FnInfo &fi, vector<Val> &env) {
    if (auto *c = dyn_cast<Constant>(v)) return constant(c);
    auto it = fi.num.find(v);
    if (it == fi.num.end()) { string t; llvm::raw_string_ostream o(t); v->print(o); throw Undecided{"operand not modelled: " + t.substr(0, 60)}; }
    return env[it->second];
}
void Interp::mergeMem(Lit c, Mem &a, const Mem &b) {
    if (c == TT) return;
    auto ib = b.begin();
    for (auto ia = a.begin(); ia != a.end() || ib != b.end();) {
        if (ia == a.end() || (ib != b.end() && ib->first < ia->first)) { ia = a.insert(ia, *ib); ++ia; ++ib; continue; }
        if (ib == b.end() || ia->first < ib->first) { ++ia; continue; }
        if (ia->second != ib->second) {
            const Obj &x = *ia->second, &y = *ib->second;
            bool same = x.bits == y.bits && x.freed == y.freed;
            if (!same) {
                auto o = std::make_shared<Obj>(x);
                if (x.size != y.size) throw Undecided{"object merge"};
                o->freed = x.freed && y.freed;
                for (size_t i = 0; i < o->bits.size(); i++) {
                    Lit p = x.bits[i], q = y.bits[i];
                    if (p == q) continue;
                    // an uninitialised side: reading it there would be flagged at the read
                    if (p == UNINIT) p = fresh(VC::Undef, "uninitialised");
                    if (q == UNINIT) q = fresh(VC::Undef, "uninitialised");
                    o->bits[i] = Ite(c, p, q);
                    if (o->loc[i / 8] < 0 || x.bits[i] <= 1) o->loc[i / 8] = y.loc[i / 8] >= 0 ? y.loc[i / 8] : o->loc[i / 8];
                }
                ia->second = o;
            }
        }
        ++ia; ++ib;
    }
}

Val Interp::run(Function *f, vector<Val> args, Mem &mem0, Lit &guard) {
    if (depth_ > 200) throw Undecided{"recursion"};
    if (fnsSeen.size() < 100000) fnsSeen.insert(f->getName().str());
    struct D { uint32_t &d; D(uint32_t &x) : d(x) { d++; } ~D() { d--; } } dd(depth_);
    FnInfo &fi = infoOf(f);
    int callerLoc = curLoc_;
    std::map<int, Pending> pend;
    vector<uint32_t> allocas;
    {
        Pending p;
        p.guard = guard;
        p.env.resize(fi.n);
        for (size_t i = 0; i < args.size(); i++) p.env[i] = args[i];
        p.mem = std::move(mem0);
        pend[0] = std::move(p);
    }
    Lit rg = FF;
    Mem rmem;
    Val rv;
    bool have = false;
    std::unordered_map<const Instruction *, uint64_t> allocaAddr;
    while (!pend.empty()) {
        auto it0 = pend.begin();
        int pos = it0->first;
        Pending st = std::move(it0->second);
        pend.erase(it0);
        const BasicBlock *bb = fi.order[pos];
        if (++blocks > blockLimit) throw Undecided{"step limit"};
        Lit &g = st.guard;
        bool dead = false;
        auto edge = [&](const BasicBlock *to, Lit eg, bool last) {
            if (eg == FF) return;
            int tp = fi.pos.at(to);
            vector<std::pair<int, Val>> ph;
            for (auto &phi : to->phis()) ph.push_back({fi.num[&phi], get(phi.getIncomingValueForBlock(bb), fi, st.env)});
            auto pit = pend.find(tp);
            if (pit == pend.end()) {
                Pending q;
                q.guard = eg;
                if (last) { q.env = std::move(st.env); q.mem = std::move(st.mem); }
                else { q.env = st.env; q.mem = st.mem; }
                for (auto &x : ph) q.env[x.first] = x.second;
                pend.emplace(tp, std::move(q));
            } else {
                Pending &q = pit->second;
                Lit both = Or(eg, q.guard);
                Lit c = bdd.Restrict(q.guard, both);
                for (int i : fi.merge[tp]) {
                    const Val *nv = &st.env[i];
                    for (auto &x : ph) if (x.first == i) nv = &x.second;
                    q.env[i] = merge(c, q.env[i], *nv);
                }
                mergeMem(c, q.mem, st.mem);
                q.guard = both;
            }
        };
        for (auto &I : *bb) {
            if (dead) break;
            instrs++;
            if (isa<PHINode>(I)) continue;
            curLoc_ = locFor(&I, callerLoc);
            auto A = [&](unsigned k) { return get(I.getOperand(k), fi, st.env); };
            auto set = [&](Val v, bool keep = false) { if (!keep && v.loc < 0) v.loc = curLoc_; else if (!keep) v.loc = curLoc_; st.env[fi.num[&I]] = std::move(v); };
            switch (I.getOpcode()) {
                case Instruction::Alloca: {
                    auto &ai = cast<AllocaInst>(I);
                    auto &ad = allocaAddr[&I];
                    if (!ad) {
                        Val n = A(0);
                        if (!n.conc) throw Undecided{"variable-size stack object"};
                        ad = newObj(st.mem, DL.getTypeAllocSize(ai.getAllocatedType()) * n.c, "local", true);
                        allocas.push_back((uint32_t)(ad >> 32));
                    }
                    set(mkc(64, ad));
                    break;
                }
                case Instruction::Load: set(loadType(st.mem, A(0), I.getType(), g), true); break;
                case Instruction::Store: {
                    storeType(st.mem, A(1), A(0), I.getOperand(0)->getType(), g);
                    break;
                }
                case Instruction::GetElementPtr: {
                    Val p = A(0);
                    for (auto gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi) {
                        Val idx = get(gi.getOperand(), fi, st.env);
                        if (auto *sty = gi.getStructTypeOrNull()) {
                            uint64_t off = DL.getStructLayout(sty)->getElementOffset((unsigned)idx.c);
                            if (off) p = p.conc ? mkc(64, p.c + off) : mk(addv(bits(p), bits(mkc(64, off)), FF));
                        } else {
                            uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
                            if (idx.conc) {
                                int64_t sx = idx.w < 64 ? ((int64_t)(idx.c << (64 - idx.w))) >> (64 - idx.w) : (int64_t)idx.c;
                                uint64_t off = (uint64_t)sx * sz;
                                if (off) p = p.conc ? mkc(64, p.c + off) : mk(addv(bits(p), bits(mkc(64, off)), FF));
                            } else {
                                Bits ib = bits(idx);
                                while (ib.size() < 64) ib.push_back(ib.back());
                                Bits m(64, FF);
                                for (int k = 0; k < 64; k++) if ((sz >> k) & 1) m = addv(m, shlc(ib, k), FF);
                                p = mk(addv(bits(p), m, FF));
                            }
                        }
                    }
                    set(p);
                    break;
                }
                case Instruction::Select: {
                    Val c = A(0);
                    set(merge(c.bit(0), A(1), A(2)), true);
                    break;
                }
                case Instruction::ICmp: set(cmp(cast<ICmpInst>(I).getPredicate(), A(0), A(1))); break;
                case Instruction::FCmp: {
                    Val a = A(0), b = A(1);
                    if (!a.conc || !b.conc || a.w != 64) throw Undecided{"floating point"};
                    double x, y;
                    memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
                    bool r;
                    switch (cast<FCmpInst>(I).getPredicate()) {
                        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break;
                        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break;
                        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break;
                        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
                        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
                        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break;
                        default: throw Undecided{"floating point"};
                    }
                    set(mkc(1, r));
                    break;
                }
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
                    Val a = A(0), b = A(1);
                    if (!a.conc || !b.conc || a.w != 64) throw Undecided{"floating point"};
                    double x, y, r;
                    memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
                    r = I.getOpcode() == Instruction::FAdd ? x + y : I.getOpcode() == Instruction::FSub ? x - y : I.getOpcode() == Instruction::FMul ? x * y : x / y;
                    uint64_t u;
                    memcpy(&u, &r, 8);
                    set(mkc(64, u));
                    break;
                }
                case Instruction::ExtractValue: {
                    Val v = A(0);
                    for (unsigned k : cast<ExtractValueInst>(I).getIndices()) { if (!v.el) throw Undecided{"aggregate"}; Val t = (*v.el)[k]; v = t; }
                    set(v, true);
                    break;
                }
                case Instruction::InsertValue: {
                    auto idx = cast<InsertValueInst>(I).getIndices();
                    std::function<Val(const Val &, size_t)> ins = [&](const Val &agg, size_t d) -> Val {
                        if (d == idx.size()) return A(1);
                        if (!agg.el) throw Undecided{"aggregate"};
                        auto v = std::make_shared<vector<Val>>(*agg.el);
                        (*v)[idx[d]] = ins((*agg.el)[idx[d]], d + 1);
                        Val r; r.el = v;
                        return r;
                    };
                    set(ins(A(0), 0), true);
                    break;
                }
                case Instruction::Freeze: set(A(0), true); break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto &cb = cast<CallBase>(I);
                    Val r = call(&cb, fi, st.env, st.mem, g, curLoc_);
                    curLoc_ = locFor(&I, callerLoc);
                    if (!I.getType()->isVoidTy()) st.env[fi.num[&I]] = r;
                    if (g == FF) { dead = true; break; }
                    if (auto *iv = dyn_cast<InvokeInst>(&I)) edge(iv->getNormalDest(), g, true);
                    break;
                }
                case Instruction::Br: {
                    auto &br = cast<BranchInst>(I);
                    if (br.isUnconditional()) { edge(br.getSuccessor(0), g, true); break; }
                    Val c = A(0);
                    Lit cb = c.bit(0);
                    Lit g1 = And(g, cb), g0 = And(g, NOT(cb));
                    if (g1 != FF && g0 != FF) {
                        // conditions decided by uninitialised or undefined bits
                        edge(br.getSuccessor(0), g1, false);
                        edge(br.getSuccessor(1), g0, true);
                    } else if (g1 != FF) edge(br.getSuccessor(0), g1, true);
                    else edge(br.getSuccessor(1), g0, true);
                    break;
                }
                case Instruction::Switch: {
                    auto &sw = cast<SwitchInst>(I);
                    Val c = A(0);
                    Lit rest = g;
                    Bits cv = bits(c);
                    for (auto &cs : sw.cases()) {
                        Lit e = eqv(cv, bits(constant(cs.getCaseValue())));
                        edge(cs.getCaseSuccessor(), And(g, e), false);
                        rest = And(rest, NOT(e));
                    }
                    edge(sw.getDefaultDest(), rest, false);
                    break;
                }
                case Instruction::Ret: {
                    Val v;
                    if (I.getNumOperands()) v = A(0);
                    if (!have) { rg = g; rv = v; rmem = std::move(st.mem); have = true; }
                    else {
                        Lit both = Or(rg, g), c = bdd.Restrict(rg, both);
                        if (I.getNumOperands()) rv = merge(c, rv, v);
                        mergeMem(c, rmem, st.mem);
                        rg = both;
                    }
                    break;
                }
                case Instruction::Unreachable:
                    // reached without a modelled throw: falling off a value-returning function
                    event("control reaches the end of a value-returning function", g);
                    dead = true;
                    break;
                case Instruction::Resume: case Instruction::LandingPad: dead = true; break;
                default:
                    if (I.isBinaryOp()) { set(binop(I.getOpcode(), A(0), A(1), &I, g)); break; }
                    if (auto *ci = dyn_cast<CastInst>(&I)) {
                        Val v = A(0);
                        Val r = castop(ci, v);
                        r.loc = v.loc >= 0 ? v.loc : curLoc_;
                        st.env[fi.num[&I]] = r;
                        break;
                    }
                    throw Undecided{string("instruction ") + I.getOpcodeName()};
            }
        }
    }
    curLoc_ = callerLoc;
    guard = rg;
    if (have) {
        for (auto id : allocas) rmem.erase(id);
        mem0 = std::move(rmem);
    } else mem0.clear();
    return rv;
}

Val Interp::cmp(unsigned pred, const Val &a, const Val &b) {
    if (a.conc && b.conc) {
        auto sx = [](const Val &v) { return v.w < 64 ? ((int64_t)(v.c << (64 - v.w))) >> (64 - v.w) : (int64_t)v.c; };
        bool r = false;
        switch (pred) {
            case CmpInst::ICMP_EQ: r = a.c == b.c; break;
            case CmpInst::ICMP_NE: r = a.c != b.c; break;
            case CmpInst::ICMP_UGT: r = a.c > b.c; break;
            case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
            case CmpInst::ICMP_ULT: r = a.c < b.c; break;
            case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case CmpInst::ICMP_SGT: r = sx(a) > sx(b); break;
            case CmpInst::ICMP_SGE: r = sx(a) >= sx(b); break;
            case CmpInst::ICMP_SLT: r = sx(a) < sx(b); break;
            case CmpInst::ICMP_SLE: r = sx(a) <= sx(b); break;
        }
        return mkc(1, r);
    }
    Bits x = bits(a), y = bits(b);
    Lit r;
    switch (pred) {
        case CmpInst::ICMP_EQ: r = eqv(x, y); break;
        case CmpInst::ICMP_NE: r = NOT(eqv(x, y)); break;
        case CmpInst::ICMP_UGT: r = ultv(y, x); break;
        case CmpInst::ICMP_UGE: r = NOT(ultv(x, y)); break;
        case CmpInst::ICMP_ULT: r = ultv(x, y); break;
        case CmpInst::ICMP_ULE: r = NOT(ultv(y, x)); break;
        case CmpInst::ICMP_SGT: r = sltv(y, x); break;
        case CmpInst::ICMP_SGE: r = NOT(sltv(x, y)); break;
        case CmpInst::ICMP_SLT: r = sltv(x, y); break;
        default: r = NOT(sltv(y, x)); break;
    }
    return mk({r});
}
Val Interp::castop(const CastInst *I, const Val &v) {
    switch (I->getOpcode()) {
        case Instruction::Trunc: {
            uint32_t w = width(I->getType());
            if (v.conc) return mkc(w, v.c);
            Bits b(v.b->begin(), v.b->begin() + w);
            return mk(b);
        }
        case Instruction::ZExt: {
            uint32_t w = width(I->getType());
            if (v.conc && w <= 64) return mkc(w, v.c);
            Bits b = bits(v);
            b.resize(w, FF);
            return mk(b);
        }
        case Instruction::SExt: {
            uint32_t w = width(I->getType());
            Bits b = bits(v);
            b.resize(w, b.back());
            return mk(b);
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
            uint32_t w = width(I->getType());
            if (w != v.w) throw Undecided{"pointer cast"};
            return v;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: {
            if (!v.conc || !I->getType()->isDoubleTy()) throw Undecided{"floating point"};
            double d = I->getOpcode() == Instruction::UIToFP ? (double)v.c : (double)(v.w < 64 ? ((int64_t)(v.c << (64 - v.w))) >> (64 - v.w) : (int64_t)v.c);
            uint64_t u;
            memcpy(&u, &d, 8);
            return mkc(64, u);
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            if (!v.conc || !I->getOperand(0)->getType()->isDoubleTy()) throw Undecided{"floating point"};
            double d;
            memcpy(&d, &v.c, 8);
            return mkc(width(I->getType()), I->getOpcode() == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d);
        }
        default: throw Undecided{"cast"};
    }
}
Val Interp::binop(unsigned opc, const Val &a, const Val &b, const Instruction *I, Lit guard) {
    uint32_t w = a.w;
    auto *obo = dyn_cast<OverflowingBinaryOperator>(I);
    bool nsw = obo && obo->hasNoSignedWrap();
    if (a.conc && b.conc) {
        uint64_t x = a.c, y = b.c, r = 0;
        auto sx = [w](uint64_t c) { return w < 64 ? ((int64_t)(c << (64 - w))) >> (64 - w) : (int64_t)c; };
        switch (opc) {
            case Instruction::Add: r = x + y; if (nsw) { __int128 t = (__int128)sx(x) + sx(y); if (t != sx(r & maskw(w))) event("signed overflow", guard); } break;
            case Instruction::Sub: r = x - y; if (nsw) { __int128 t = (__int128)sx(x) - sx(y); if (t != sx(r & maskw(w))) event("signed overflow", guard); } break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                if (y >= w) { event("shift amount not smaller than the operand width", guard); Bits u(w); for (auto &l : u) l = fresh(VC::Undef, "oversized shift"); return mk(u); }
                r = opc == Instruction::Shl ? x << y : opc == Instruction::LShr ? x >> y : (uint64_t)(sx(x) >> y);
                break;
            case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
                if (!y) { event("division by zero", guard); Bits u(w); for (auto &l : u) l = fresh(VC::Undef, "division by zero"); return mk(u); }
                if (opc == Instruction::UDiv) r = x / y;
                else if (opc == Instruction::URem) r = x % y;
                else if (sx(y) == -1) r = opc == Instruction::SDiv ? 0 - x : 0;
                else r = (uint64_t)(opc == Instruction::SDiv ? sx(x) / sx(y) : sx(x) % sx(y));
                break;
            default: throw Undecided{"binary operator"};
        }
        return mkc(w, r);
    }
    switch (opc) {
        case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            Bits r(w);
            for (uint32_t i = 0; i < w; i++) {
                Lit x = a.bit(i), y = b.bit(i);
                r[i] = opc == Instruction::And ? And(x, y) : opc == Instruction::Or ? Or(x, y) : Xor(x, y);
            }
            return mk(r);
        }
        case Instruction::Add: case Instruction::Sub: {
            Bits x = bits(a), y = bits(b);
            Bits z = opc == Instruction::Add ? y : notv(y);
            Bits r = addv(x, z, opc == Instruction::Sub ? TT : FF);
            if (nsw) {
                Lit ov = And(NOT(Xor(x.back(), z.back())), Xor(x.back(), r.back()));
                event("signed overflow", And(guard, ov));
            }
            return mk(r);
        }
        case Instruction::Mul: return mk(mulv(bits(a), bits(b)));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            Bits y = bits(b);
            Lit z = NOT(orv(y));
            event("division by zero", And(guard, z));
            if (opc == Instruction::SDiv || opc == Instruction::SRem) {
                Bits x = bits(a);
                Lit m1 = TT, mn = x.back();
                for (auto l : y) m1 = And(m1, l);
                for (uint32_t i = 0; i + 1 < w; i++) mn = And(mn, NOT(x[i]));
                event("signed division overflow", And(guard, And(m1, mn)));
            }
            int op = opc == Instruction::UDiv ? UF_UDIV : opc == Instruction::URem ? UF_UREM : opc == Instruction::SDiv ? UF_SDIV : UF_SREM;
            Bits r = divv(op, bits(a), y);
            if (And(guard, z) != FF) for (auto &l : r) l = Ite(z, fresh(VC::Undef, "division by zero"), l);
            return mk(r);
        }
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            Bits x = bits(a), y = bits(b);
            Lit over = NOT(ultv(y, bits(mkc(w, w))));
            if (w > 64) over = NOT(ultv(y, bits(mkc(w, w))));
            event("shift amount not smaller than the operand width", And(guard, over));
            Lit fill = opc == Instruction::AShr ? x.back() : FF;
            for (uint32_t k = 0; (1u << k) < w && k < w; k++) {
                if (y[k] == FF) continue;
                uint32_t d = 1u << k;
                Bits s(w);
                for (uint32_t i = 0; i < w; i++) {
                    if (opc == Instruction::Shl) s[i] = i >= d ? x[i - d] : FF;
                    else s[i] = i + d < w ? x[i + d] : fill;
                }
                x = itev(y[k], s, x);
            }
            if (And(guard, over) != FF) for (auto &l : x) l = Ite(over, fresh(VC::Undef, "oversized shift"), l);
            return mk(x);
        }
        default: throw Undecided{"binary operator"};
    }
}

Val Interp::call(const CallBase *I, FnInfo &fi, vector<Val> &env, Mem &mem, Lit &guard, int) {
    vector<Val> a;
    const Function *f = I->getCalledFunction();
    if (f && f->isIntrinsic() && (f->getIntrinsicID() == Intrinsic::dbg_declare || f->getIntrinsicID() == Intrinsic::dbg_value || f->getIntrinsicID() == Intrinsic::dbg_label || f->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)) return {};
    if (I->isInlineAsm()) throw Undecided{"inline assembly"};
    for (auto &x : I->args()) a.push_back(get(x.get(), fi, env));
    if (!f) {
        const Value *cv = I->getCalledOperand()->stripPointerCasts();
        f = dyn_cast<Function>(cv);
        if (!f) {
            Val p = get(I->getCalledOperand(), fi, env);
            if (p.conc) { auto it = faddr_.find((uint32_t)(p.c >> 32)); if (it != faddr_.end()) f = it->second; }
            if (!f) throw Undecided{"indirect call"};
        }
    }
    Val r;
    if (f->isIntrinsic()) {
        if (!intrinsic(I, f, a, mem, guard, r)) throw Undecided{"intrinsic " + f->getName().str()};
        if (r.loc < 0) r.loc = curLoc_;
        return r;
    }
    if (model(f->getName().str(), I, a, mem, guard, r)) return r;
    if (f->isDeclaration()) {
        event("call to external function " + demangle(f->getName().str()), guard);
        throw Undecided{"external function " + demangle(f->getName().str())};
    }
    // by-value aggregates are passed as copies
    for (unsigned k = 0; k < I->arg_size(); k++)
        if (I->isByValArgument(k)) {
            uint64_t sz = DL.getTypeAllocSize(I->getParamByValType(k));
            uint64_t ad = newObj(mem, sz, "byval");
            copyMem(mem, mkc(64, ad), a[k], mkc(64, sz), guard, true);
            a[k] = mkc(64, ad);
        }
    if (f->isVarArg()) throw Undecided{"variadic function"};
    int keep = curLoc_;
    r = run(const_cast<Function *>(f), a, mem, guard);
    curLoc_ = keep;
    return r;
}
bool Interp::intrinsic(const CallBase *I, const Function *f, vector<Val> &a, Mem &mem, Lit &guard, Val &r) {
    switch (f->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: return true;
        case Intrinsic::expect: r = a[0]; return true;
        case Intrinsic::is_constant: r = mkc(1, 0); return true;
        case Intrinsic::objectsize: r = mkc(width(I->getType()), a[1].c ? 0 : ~0ull); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(mem, a[0], a[1], a[2], guard, true); return true;
        case Intrinsic::memset: setMem(mem, a[0], a[1], a[2], guard); return true;
        case Intrinsic::trap: event("trap", guard); guard = FF; return true;
        case Intrinsic::ctpop: {
            Bits x = bits(a[0]), s(x.size(), FF);
            for (auto l : x) { Bits o(x.size(), FF); o[0] = l; if (l != FF) s = addv(s, o, FF); }
            r = mk(s);
            return true;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            Bits x = bits(a[0]);
            uint32_t w = (uint32_t)x.size();
            Lit z = NOT(orv(x));
            bool zp = a[1].conc && a[1].c;
            if (zp) event("leading-zero count of zero", And(guard, z));
            Bits res = bits(mkc(w, w));
            if (zp && And(guard, z) != FF) for (auto &l : res) l = fresh(VC::Undef, "clz(0)");
            for (uint32_t i = 0; i < w; i++) {
                uint32_t k = f->getIntrinsicID() == Intrinsic::ctlz ? i : w - 1 - i;  // least significant first
                res = itev(x[k], bits(mkc(w, f->getIntrinsicID() == Intrinsic::ctlz ? w - 1 - k : k)), res);
            }
            r = mk(res);
            return true;
        }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            auto id = f->getIntrinsicID();
            Bits x = bits(a[0]), y = bits(a[1]);
            Lit lt = (id == Intrinsic::umax || id == Intrinsic::umin) ? ultv(x, y) : sltv(x, y);
            bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
            r = mk(itev(lt, mx ? y : x, mx ? x : y));
            return true;
        }
        case Intrinsic::abs: {
            Bits x = bits(a[0]);
            r = mk(itev(x.back(), negv(x), x));
            return true;
        }
        case Intrinsic::bitreverse: { Bits x = bits(a[0]); std::reverse(x.begin(), x.end()); r = mk(x); return true; }
        case Intrinsic::bswap: {
            Bits x = bits(a[0]), y;
            for (size_t i = x.size(); i >= 8; i -= 8) y.insert(y.end(), x.begin() + i - 8, x.begin() + i);
            r = mk(y);
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (!a[2].conc) return false;
            uint32_t w = a[0].w, s = (uint32_t)(a[2].c % w);
            Bits hi = bits(a[0]), lo = bits(a[1]), c = lo;
            c.insert(c.end(), hi.begin(), hi.end());
            uint32_t st = f->getIntrinsicID() == Intrinsic::fshl ? w - s : s;
            r = mk(Bits(c.begin() + st, c.begin() + st + w));
            return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            auto id = f->getIntrinsicID();
            bool sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
            Bits x = bits(a[0]), y = sub ? notv(bits(a[1])) : bits(a[1]);
            Lit co;
            Bits s = addv(x, y, sub ? TT : FF, &co);
            Lit ov = (id == Intrinsic::uadd_with_overflow) ? co : (id == Intrinsic::usub_with_overflow) ? NOT(co) : And(NOT(Xor(x.back(), y.back())), Xor(x.back(), s.back()));
            auto v = std::make_shared<vector<Val>>(vector<Val>{mk(s), mk({ov})});
            r.el = v;
            return true;
        }
        case Intrinsic::umul_with_overflow: {
            Bits x = bits(a[0]), y = bits(a[1]);
            size_t w = x.size();
            x.resize(2 * w, FF); y.resize(2 * w, FF);
            Bits p = mulv(x, y);
            auto v = std::make_shared<vector<Val>>(vector<Val>{mk(Bits(p.begin(), p.begin() + w)), mk({orv(Bits(p.begin() + w, p.end()))})});
            r.el = v;
            return true;
        }
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
            bool sub = f->getIntrinsicID() == Intrinsic::usub_sat;
            Bits x = bits(a[0]), y = sub ? notv(bits(a[1])) : bits(a[1]);
            Lit co;
            Bits s = addv(x, y, sub ? TT : FF, &co);
            r = mk(sub ? itev(co, s, Bits(x.size(), FF)) : itev(co, Bits(x.size(), TT), s));
            return true;
        }
        case Intrinsic::ceil: case Intrinsic::floor: {
            if (!a[0].conc || a[0].w != 64) return false;
            double d;
            memcpy(&d, &a[0].c, 8);
            d = f->getIntrinsicID() == Intrinsic::ceil ? std::ceil(d) : std::floor(d);
            uint64_t u;
            memcpy(&u, &d, 8);
            r = mkc(64, u);
            return true;
        }
        case Intrinsic::eh_typeid_for: r = mkc(32, 1); return true;
        default: return false;
    }
}
