// Transfer functions for the few library routines the analysed code calls but whose bodies are not
// in the analysed IR (allocation, C string helpers, string streams).
#include <cmath>

#include "interp.hh"
using namespace llvm;
using std::string;
using std::vector;
static constexpr Lit FF = 0, TT = 1;

static bool starts(const string &s, const char *p) { return s.rfind(p, 0) == 0; }
static bool has(const string &s, const char *p) { return s.find(p) != string::npos; }

// A string stream object is abstracted in its own storage: +0 buffer address, +8 length, +16 base.
// The buffer is a separate object of fixed capacity.
static constexpr uint64_t CAP = 2048;

bool Interp::streamModel(const string &name, vector<Val> &a, Mem &mem, Lit &guard, Val &r) {
    auto base = [&](const Val &p) -> uint64_t {
        if (!p.conc) throw Undecided{"stream address"};
        return (p.c & 0xffffffff00000000ull) + 0x1000;
    };
    auto at = [&](uint64_t ad) { return mkc(64, ad); };
    bool savedAllow = allowGlobalStore;
    struct R { bool &x; bool v; ~R() { x = v; } } rr{allowGlobalStore, savedAllow};
    auto append = [&](uint64_t s, const vector<Val> &chars, const Bits &len) {
        Val buf = load(mem, at(s), 64, guard), cur = load(mem, at(s + 8), 64, guard);
        Bits cb = bits(cur);
        for (size_t i = 0; i < chars.size(); i++) {
            Val p = mk(addv(addv(bits(buf), cb, FF), bits(mkc(64, i)), FF));
            store(mem, p, chars[i], guard);
        }
        Val nl = mk(addv(cb, len, FF));
        nl.loc = -1;
        store(mem, at(s + 8), nl, guard);
    };
    auto number = [&](uint64_t s, Bits v, bool isSigned) {
        Val fb = load(mem, at(s + 16), 64, guard);
        if (!fb.conc) throw Undecided{"stream base"};
        unsigned b = (unsigned)fb.c;
        if (isSigned && b == 10) {
            if (v.back() != FF && And(guard, v.back()) != FF) throw Undecided{"negative number on a stream"};
        }
        vector<Bits> dig;
        size_t w = v.size();
        if (b == 16 || b == 8) {
            size_t k = b == 16 ? 4 : 3;
            for (size_t i = 0; i < w; i += k) {
                Bits d(4, FF);
                for (size_t j = 0; j < k && i + j < w; j++) d[j] = v[i + j];
                dig.push_back(d);
            }
        } else {
            Bits q = v;
            for (int i = 0; i < 20; i++) {
                bool z = true;
                for (auto l : q) if (And(l, guard) != FF) z = false;
                if (z) break;
                Bits ten = bits(mkc((uint32_t)w, 10));
                Lit small = ultv(q, ten);
                if (And(guard, NOT(small)) == FF) { Bits d(q.begin(), q.begin() + 4); dig.push_back(d); break; }
                Bits d = divv(UF_UREM, q, ten);
                dig.push_back(Bits(d.begin(), d.begin() + 4));
                q = divv(UF_UDIV, q, ten);
            }
        }
        while (dig.size() > 1) {
            bool z = true;
            for (auto l : dig.back()) if (And(l, guard) != FF) z = false;
            if (!z) break;
            dig.pop_back();
        }
        if (dig.empty()) dig.push_back(Bits(4, FF));
        size_t n = dig.size();
        auto ch = [&](const Bits &d) {
            Bits d8 = d;
            d8.resize(8, FF);
            Bits num = addv(d8, bits(mkc(8, '0')), FF), let = addv(d8, bits(mkc(8, 'a' - 10)), FF);
            Lit ge10 = And(d[3], Or(d[2], d[1]));
            return itev(ge10, let, num);
        };
        vector<Bits> cs;
        for (auto &d : dig) cs.push_back(ch(d));
        // number of significant digits
        Bits len = bits(mkc(64, 1));
        vector<Bits> outc(n, Bits(8, FF));
        for (size_t p = 0; p < n; p++) outc[p] = p == 0 ? cs[0] : bits(mkc(8, 0));
        for (size_t L = 2; L <= n; L++) {
            Lit nz = orv(dig[L - 1]);
            len = itev(nz, bits(mkc(64, L)), len);
            for (size_t p = 0; p < n; p++) outc[p] = itev(nz, p < L ? cs[L - 1 - p] : bits(mkc(8, 0)), outc[p]);
        }
        vector<Val> out;
        for (auto &o : outc) out.push_back(mk(o));
        append(s, out, len);
    };
    if (has(name, "basic_stringstream") || has(name, "basic_ostringstream")) {
        if (has(name, "C1Ev") || has(name, "C2Ev")) {
            uint64_t s = base(a[0]), b = newObj(mem, CAP, "stream buffer", false);
            store(mem, at(s), mkc(64, b), guard);
            store(mem, at(s + 8), mkc(64, 0), guard);
            store(mem, at(s + 16), mkc(64, 10), guard);
            return true;
        }
        if (has(name, "D1Ev") || has(name, "D2Ev")) return true;
        if (has(name, "3strEv")) {
            uint64_t s = base(a[1]);
            Val buf = load(mem, at(s), 64, guard), len = load(mem, at(s + 8), 64, guard);
            uint64_t mx = 0;
            for (auto &[g, l] : enumerate(len, guard, 512)) { (void)g; mx = std::max(mx, l); }
            if (mx > CAP - 8) throw Undecided{"stream too long"};
            uint64_t cap = std::max<uint64_t>(mx, 30);
            uint64_t h = newObj(mem, cap + 1, "string", false);
            mem[(uint32_t)(h >> 32)]->heap = true;
            for (uint64_t i = 0; i < mx; i++) {
                Val c = load(mem, mk(addv(bits(buf), bits(mkc(64, i)), FF)), 8, guard);
                store(mem, at(h + i), c, guard);
            }
            store(mem, mk(addv(bits(mkc(64, h)), bits(len), FF)), mkc(8, 0), guard);
            store(mem, a[0], mkc(64, h), guard);
            store(mem, mk(addv(bits(a[0]), bits(mkc(64, 8)), FF)), len, guard);
            store(mem, mk(addv(bits(a[0]), bits(mkc(64, 16)), FF)), mkc(64, cap), guard);
            return true;
        }
        return false;
    }
    bool isOp = starts(name, "_ZNSols") || starts(name, "_ZStls");
    if (isOp) {
        uint64_t s = base(a[0]);
        r = a[0];
        if (name == "_ZNSolsEm" || name == "_ZNSolsEj" || name == "_ZNSolsEt" || name == "_ZNSolsEy") { number(s, bits(a[1]), false); return true; }
        if (name == "_ZNSolsEl" || name == "_ZNSolsEi" || name == "_ZNSolsEs" || name == "_ZNSolsEx") { number(s, bits(a[1]), true); return true; }
        if (name == "_ZNSolsEb") { Bits b = bits(a[1]); b.resize(8, FF); number(s, b, false); return true; }
        if (name == "_ZNSolsEPFRSt8ios_baseS0_E") {
            if (!a[1].conc) throw Undecided{"stream manipulator"};
            auto it = faddr_.find((uint32_t)(a[1].c >> 32));
            string m = it == faddr_.end() ? "" : it->second->getName().str();
            uint64_t b = has(m, "3hex") ? 16 : has(m, "3oct") ? 8 : has(m, "3dec") ? 10 : 0;
            if (!b) throw Undecided{"stream manipulator " + m};
            store(mem, at(s + 16), mkc(64, b), guard);
            return true;
        }
        if (starts(name, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c") || starts(name, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h")) {
            append(s, {a[1]}, bits(mkc(64, 1)));
            return true;
        }
        if (starts(name, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")) {
            vector<Val> cs;
            for (uint64_t i = 0; i < 256; i++) {
                Val c = load(mem, mk(addv(bits(a[1]), bits(mkc(64, i)), FF)), 8, guard);
                if (c.conc && c.c == 0) { append(s, cs, bits(mkc(64, cs.size()))); return true; }
                if (!c.conc) break;
                cs.push_back(c);
            }
            throw Undecided{"C string on a stream"};
        }
        if (starts(name, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_string")) {
            Val p = load(mem, a[1], 64, guard), len = load(mem, mk(addv(bits(a[1]), bits(mkc(64, 8)), FF)), 64, guard);
            uint64_t mx = 0;
            for (auto &[g, l] : enumerate(len, guard, 512)) { (void)g; mx = std::max(mx, l); }
            if (mx > CAP - 8) throw Undecided{"stream too long"};
            vector<Val> cs;
            for (uint64_t i = 0; i < mx; i++) {
                Lit g = And(guard, ultv(bits(mkc(64, i)), bits(len)));
                cs.push_back(load(mem, mk(addv(bits(p), bits(mkc(64, i)), FF)), 8, g));
            }
            append(s, cs, bits(len));
            return true;
        }
    }
    return false;
}

bool Interp::model(const string &name, const CallBase *I, vector<Val> &a, Mem &mem, Lit &guard, Val &r) {
    if (starts(name, "_ZSt") && has(name, "__throw_")) {
        string d = demangle(name);
        event("throws: " + d.substr(0, d.find('(')), guard);
        guard = FF;
        return true;
    }
    if (name == "__cxa_throw" || name == "__cxa_rethrow" || name == "abort" || name == "__assert_fail" || name == "_ZSt9terminatev" || name == "__clang_call_terminate" || name == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
        event(name == "__cxa_throw" || name == "__cxa_rethrow" ? "throws" : "aborts", guard);
        guard = FF;
        return true;
    }
    if (name == "__cxa_allocate_exception") { r = mkc(64, newObj(mem, 256, "exception", false)); return true; }
    if (name == "_Znwm" || name == "_Znam" || name == "malloc") {
        event("allocates", guard);
        uint64_t mx = 0;
        for (auto &[g, l] : enumerate(a[0], guard, 512)) { (void)g; mx = std::max(mx, l); }
        r = mkc(64, newObj(mem, mx, "heap"));
        mem[(uint32_t)(r.c >> 32)]->heap = true;
        return true;
    }
    if (name == "_ZdlPv" || name == "_ZdlPvm" || name == "_ZdaPv" || name == "_ZdaPvm" || name == "free") {
        if (a[0].conc && a[0].c) {
            auto it = mem.find((uint32_t)(a[0].c >> 32));
            if (it == mem.end() || !it->second->heap || it->second->freed) event("invalid deallocation", guard);
            else { it->second = std::make_shared<Obj>(*it->second); it->second->freed = true; }
        }
        return true;
    }
    if (name == "__cxa_guard_acquire") {
        // dynamic initialisation of a function-local constant; allowed until release
        r = mkc(32, 1);
        allowGlobalStore = true;
        return true;
    }
    if (name == "__cxa_guard_release") { allowGlobalStore = false; return true; }
    if (name == "__cxa_guard_abort" || name == "__cxa_atexit") { r = mkc(32, 0); return true; }
    if (name == "memcpy" || name == "memmove") { copyMem(mem, a[0], a[1], a[2], guard, true); r = a[0]; return true; }
    if (name == "memset") { Bits b = bits(a[1]); b.resize(8); setMem(mem, a[0], mk(b), a[2], guard); r = a[0]; return true; }
    if (name == "memcmp" || name == "bcmp") {
        uint64_t mx = 0;
        for (auto &[g, l] : enumerate(a[2], guard, 512)) { (void)g; mx = std::max(mx, l); }
        Bits res = bits(mkc(32, 0));
        for (uint64_t i = mx; i-- > 0;) {
            Lit in = ultv(bits(mkc(64, i)), bits(a[2]));
            Bits x = bits(load(mem, mk(addv(bits(a[0]), bits(mkc(64, i)), FF)), 8, And(guard, in))), y = bits(load(mem, mk(addv(bits(a[1]), bits(mkc(64, i)), FF)), 8, And(guard, in)));
            Lit lt = And(in, ultv(x, y)), gt = And(in, ultv(y, x));
            res = itev(lt, bits(mkc(32, 0xffffffff)), itev(gt, bits(mkc(32, 1)), res));
        }
        r = mk(res);
        return true;
    }
    if (name == "memchr") {
        uint64_t mx = 0;
        for (auto &[g, l] : enumerate(a[2], guard, 512)) { (void)g; mx = std::max(mx, l); }
        Bits res = bits(mkc(64, 0)), c = bits(a[1]);
        c.resize(8);
        for (uint64_t i = mx; i-- > 0;) {
            Lit in = ultv(bits(mkc(64, i)), bits(a[2]));
            Bits p = addv(bits(a[0]), bits(mkc(64, i)), FF);
            Lit hit = And(in, eqv(bits(load(mem, mk(p), 8, And(guard, in))), c));
            res = itev(hit, p, res);
        }
        r = mk(res);
        return true;
    }
    if (name == "strlen") {
        Lit alive = guard;
        Bits res = bits(mkc(64, 0));
        for (uint64_t i = 0; i < 512; i++) {
            Val c = load(mem, mk(addv(bits(a[0]), bits(mkc(64, i)), FF)), 8, alive);
            Lit z = NOT(orv(bits(c)));
            res = itev(And(alive, z), bits(mkc(64, i)), res);
            alive = And(alive, NOT(z));
            if (alive == FF) { r = mk(res); return true; }
        }
        throw Undecided{"string length"};
    }
    if (name == "strtoul" || name == "__isoc23_strtoul" || name == "strtoull" || name == "__isoc23_strtoull" || name == "strtol" || name == "__isoc23_strtol") {
        string s;
        for (uint64_t i = 0; i < 64; i++) {
            Val c = load(mem, mk(addv(bits(a[0]), bits(mkc(64, i)), FF)), 8, guard);
            if (!c.conc) throw Undecided{"number parse of an unknown string"};
            if (!c.c) break;
            s += (char)c.c;
        }
        if (!a[2].conc) throw Undecided{"number base"};
        size_t k = 0;
        unsigned long v = 0;
        while (k < s.size() && s[k] >= '0' && s[k] <= '9') v = v * 10 + (unsigned long)(s[k++] - '0');
        if (a[1].conc && a[1].c) store(mem, a[1], mk(addv(bits(a[0]), bits(mkc(64, k)), FF)), guard);
        r = mkc(64, v);
        return true;
    }
    if (name == "__errno_location") {
        static const char *nm = "errno";
        for (auto &[id, o] : mem) if (o->name == nm) { r = mkc(64, addrOf(id)); return true; }
        r = mkc(64, newObj(mem, 8, nm, false));
        return true;
    }
    if (name == "ceil" || name == "floor") {
        if (!a[0].conc) throw Undecided{"floating point"};
        double d;
        memcpy(&d, &a[0].c, 8);
        d = name == "ceil" ? std::ceil(d) : std::floor(d);
        uint64_t u;
        memcpy(&u, &d, 8);
        r = mkc(64, u);
        return true;
    }
    if (has(name, "basic_stringstream") || has(name, "basic_ostringstream") || starts(name, "_ZNSols") || starts(name, "_ZStls")) {
        const Function *f = I->getCalledFunction();
        if (f && !f->isDeclaration() && !starts(name, "_ZStls") && !starts(name, "_ZNSols") && !has(name, "string")) return false;
        return streamModel(name, a, mem, guard, r);
    }
    return false;
}
