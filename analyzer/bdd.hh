// Hash-consed Boolean functions (reduced ordered decision graphs with complement edges).
// They are the value domain of the dataflow analysis: one function per bit of storage,
// over the bits of the analysed operation's operands.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

using Lit = uint32_t;  // node << 1 | complement
constexpr Lit F = 0, T = 1;
inline Lit NOT(Lit a) { return a ^ 1u; }

struct TooBig {};

class Bdd {
public:
    struct Node { uint32_t var, hi, lo; };
    static constexpr uint32_t TERM = 0xffffffffu;
    explicit Bdd(size_t limit = 6u << 20) : limit_(limit) {
        nodes_.push_back({TERM, 0, 0});
        tab_.assign(1u << 14, 0);
        ite_.assign(1u << 18, {});
        two_.assign(1u << 18, {});
    }
    void reset() {
        nodes_.resize(1);
        tab_.assign(1u << 14, 0);
        ite_.assign(ite_.size(), {});
        two_.assign(two_.size(), {});
    }
    size_t size() const { return nodes_.size(); }
    uint32_t top(Lit a) const { return nodes_[a >> 1].var; }
    Lit hi(Lit a) const { return nodes_[a >> 1].hi ^ (a & 1); }
    Lit lo(Lit a) const { return nodes_[a >> 1].lo ^ (a & 1); }
    Lit var(uint32_t v) { return mk(v, T, F); }

    Lit mk(uint32_t v, Lit h, Lit l) {
        if (h == l) return l;
        Lit c = l & 1;
        h ^= c; l ^= c;
        uint64_t k = hash(v, h, l);
        for (size_t i = k & (tab_.size() - 1);; i = (i + 1) & (tab_.size() - 1)) {
            uint32_t n = tab_[i];
            if (!n) {
                if (nodes_.size() >= limit_) throw TooBig{};
                n = (uint32_t)nodes_.size();
                nodes_.push_back({v, h, l});
                tab_[i] = n;
                if (nodes_.size() * 2 > tab_.size()) grow();
                return (n << 1) | c;
            }
            const Node &x = nodes_[n];
            if (x.var == v && x.hi == h && x.lo == l) return (n << 1) | c;
        }
    }
    Lit And(Lit a, Lit b) {
        if (a == F || b == F || a == NOT(b)) return F;
        if (a == T || a == b) return b;
        if (b == T) return a;
        if (a > b) std::swap(a, b);
        auto &e = two_[hash(1, a, b) & (two_.size() - 1)];
        if (e.op == 1 && e.a == a && e.b == b) return e.r;
        uint32_t va = top(a), vb = top(b), v = std::min(va, vb);
        Lit a1 = va == v ? hi(a) : a, a0 = va == v ? lo(a) : a, b1 = vb == v ? hi(b) : b, b0 = vb == v ? lo(b) : b;
        Lit h = And(a1, b1), l = And(a0, b0), r = mk(v, h, l);
        two_[hash(1, a, b) & (two_.size() - 1)] = {1, a, b, r};
        return r;
    }
    Lit Or(Lit a, Lit b) { return NOT(And(NOT(a), NOT(b))); }
    Lit Xor(Lit a, Lit b) {
        Lit c = (a ^ b) & 1;
        a &= ~1u; b &= ~1u;
        if (a == b) return c;
        if (a == F) return b ^ c;
        if (b == F) return a ^ c;
        if (a > b) std::swap(a, b);
        auto &e = two_[hash(2, a, b) & (two_.size() - 1)];
        if (e.op == 2 && e.a == a && e.b == b) return e.r ^ c;
        uint32_t va = top(a), vb = top(b), v = std::min(va, vb);
        Lit a1 = va == v ? hi(a) : a, a0 = va == v ? lo(a) : a, b1 = vb == v ? hi(b) : b, b0 = vb == v ? lo(b) : b;
        Lit h = Xor(a1, b1), l = Xor(a0, b0), r = mk(v, h, l);
        two_[hash(2, a, b) & (two_.size() - 1)] = {2, a, b, r};
        return r ^ c;
    }
    Lit Ite(Lit f, Lit g, Lit h) {
        if (f == T) return g;
        if (f == F) return h;
        if (g == h) return g;
        if (f & 1) { f ^= 1; std::swap(g, h); }
        if (g == f) g = T;
        if (g == NOT(f)) g = F;
        if (h == f) h = F;
        if (h == NOT(f)) h = T;
        if (g == h) return g;
        if (g == T) return Or(f, h);
        if (g == F) return And(NOT(f), h);
        if (h == F) return And(f, g);
        if (h == T) return Or(NOT(f), g);
        if (g == NOT(h)) return Xor(f, h);
        Lit c = g & 1;
        g ^= c; h ^= c;
        size_t k = hash(f, g, h) & (ite_.size() - 1);
        auto &e = ite_[k];
        if (e.f == f && e.g == g && e.h == h) return e.r ^ c;
        uint32_t v = std::min(top(f), std::min(top(g), top(h)));
        auto c1 = [&](Lit x) { return top(x) == v ? hi(x) : x; };
        auto c0 = [&](Lit x) { return top(x) == v ? lo(x) : x; };
        Lit r1 = Ite(c1(f), c1(g), c1(h)), r0 = Ite(c0(f), c0(g), c0(h)), r = mk(v, r1, r0);
        ite_[k] = {f, g, h, r};
        return r ^ c;
    }
    // f simplified on the care set c (c != F): agrees with f wherever c holds
    Lit Restrict(Lit f, Lit c) {
        if (c == T || c == F || f <= 1) return f;
        if (f == c) return T;
        if (f == NOT(c)) return F;
        Lit n = f & 1;
        f ^= n;
        size_t k = hash(3, f, c) & (two_.size() - 1);
        if (two_[k].op == 3 && two_[k].a == f && two_[k].b == c) return two_[k].r ^ n;
        uint32_t vf = top(f), vc = top(c);
        Lit r;
        if (vc < vf) r = Restrict(f, Or(hi(c), lo(c)));
        else if (vf < vc) r = mk(vf, Restrict(hi(f), c), Restrict(lo(f), c));
        else if (hi(c) == F) r = Restrict(lo(f), lo(c));
        else if (lo(c) == F) r = Restrict(hi(f), hi(c));
        else r = mk(vf, Restrict(hi(f), hi(c)), Restrict(lo(f), lo(c)));
        two_[k] = {3, f, c, r};
        return r ^ n;
    }
    // universal quantification of every variable for which pred(var) holds
    template <class P> Lit Forall(Lit f, P pred) {
        std::unordered_map<Lit, Lit> memo;
        return forall(f, pred, memo);
    }
    void support(Lit f, std::vector<char> &seenVar, std::vector<uint32_t> &vars, std::unordered_map<uint32_t, char> &seen, size_t max) {
        uint32_t n = f >> 1;
        if (!n || seen.count(n) || vars.size() > max) return;
        seen[n] = 1;
        uint32_t v = nodes_[n].var;
        if (v >= seenVar.size()) seenVar.resize(v + 64, 0);
        if (!seenVar[v]) { seenVar[v] = 1; vars.push_back(v); }
        support(nodes_[n].hi, seenVar, vars, seen, max);
        support(nodes_[n].lo, seenVar, vars, seen, max);
    }
    // one satisfying assignment: var -> value for the variables on the path
    std::unordered_map<uint32_t, bool> sat(Lit f) const {
        std::unordered_map<uint32_t, bool> m;
        while (f > 1) {
            if (hi(f) != F && (lo(f) == F || true)) {
                if (lo(f) != F) { m[top(f)] = false; f = lo(f); }
                else { m[top(f)] = true; f = hi(f); }
            } else { m[top(f)] = false; f = lo(f); }
        }
        return m;
    }

private:
    struct E3 { Lit f = 0, g = 0, h = 0, r = 0; };
    struct E2 { uint32_t op = 0; Lit a = 0, b = 0, r = 0; };
    std::vector<Node> nodes_;
    std::vector<uint32_t> tab_;
    std::vector<E3> ite_;
    std::vector<E2> two_;
    size_t limit_;
    static uint64_t hash(uint64_t a, uint64_t b, uint64_t c) {
        uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 0x165667B1ull) * 0x165667B19E3779F9ull;
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        return h;
    }
    void grow() {
        std::vector<uint32_t> t(tab_.size() * 4, 0);
        for (uint32_t n = 1; n < nodes_.size(); n++) {
            size_t i = hash(nodes_[n].var, nodes_[n].hi, nodes_[n].lo) & (t.size() - 1);
            while (t[i]) i = (i + 1) & (t.size() - 1);
            t[i] = n;
        }
        tab_.swap(t);
        if (ite_.size() < tab_.size() && ite_.size() < (1u << 21)) { ite_.assign(ite_.size() * 4, {}); two_.assign(two_.size() * 4, {}); }
    }
    template <class P> Lit forall(Lit f, P &pred, std::unordered_map<Lit, Lit> &memo) {
        if (f <= 1) return f;
        auto it = memo.find(f);
        if (it != memo.end()) return it->second;
        Lit h = forall(hi(f), pred, memo), l = forall(lo(f), pred, memo);
        Lit r = pred(top(f)) ? And(h, l) : Ite(var(top(f)), h, l);
        memo[f] = r;
        return r;
    }
};
