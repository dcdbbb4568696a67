// Support for the probes: operands come from 64-bit words, results go back to 64-bit words.
// Only the public data members are used, so that no library function is trusted here.
#pragma once
#include "logic/array.hh"
#include "logic/struct.hh"
#include "logic/union.hh"
using u64 = uint64_t;
template <int w, bool s = false> using L = logic::logic<w - 1, 0, s>;
template <int w, bool s = false> using B = logic::bit<w - 1, 0, s>;
template <int w, bool s = false> using N = logic::big_num<w, s>;
template <class V> struct wide_num : std::false_type {};
template <u64 w, bool sg> struct wide_num<logic::big_num<w, sg>> : std::true_type { static constexpr u64 size = w; static constexpr bool is_signed = sg; };
template <class V> inline void ldv(V &b, const u64 *&p) {
    if constexpr (requires { b.value.values; }) { for (auto &x : b.value.values) x = *p++; }
    else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(b.value)>, bool>) b.value = (*p++ & 1) != 0;
    else b.value = static_cast<std::remove_cvref_t<decltype(b.value)>>(*p++);
}
template <class V> inline void ldi(V &v, const u64 *&p) {
    if constexpr (std::is_arithmetic_v<V>) {
        if constexpr (std::is_same_v<V, bool>) v = (*p++ & 1) != 0;
        else v = static_cast<V>(*p++);
    }
    else if constexpr (wide_num<V>::value) { for (auto &x : v.values) x = *p++; }
    else if constexpr (V::is_4state) { ldv(v.value, p); ldv(v.xz_mask, p); }
    else ldv(v, p);
}
template <class V> inline V ld(const u64 *&p) { V v{}; ldi(v, p); return v; }
template <class V> inline void stv(u64 *&o, const V &b) {
    if constexpr (requires { b.value.values; }) { for (auto x : b.value.values) *o++ = x; }
    else *o++ = static_cast<u64>(b.value);
}
template <class V> inline void st(u64 *out, int slot, const V &v) {
    u64 *o = out + 128 * slot;
    if constexpr (std::is_arithmetic_v<V>) {
        *o++ = (std::is_same_v<V, bool> ? 1 : sizeof(V) * 8) | (u64)std::is_signed_v<V> << 32 | (u64)2 << 48;
        *o++ = static_cast<u64>(v);
    } else if constexpr (wide_num<V>::value) {
        *o++ = wide_num<V>::size | (u64)wide_num<V>::is_signed << 32;
        for (auto x : v.values) *o++ = x;
    } else {
        *o++ = (u64)V::size | (u64)V::is_signed << 32 | (u64)V::is_4state << 40;
        if constexpr (V::is_4state) { stv(o, v.value); stv(o, v.xz_mask); }
        else stv(o, v);
    }
}
inline void sts(u64 *out, const std::string &s) {
    out[0] = s.size();
    char *c = reinterpret_cast<char *>(out + 1);
    for (u64 i = 0; i < s.size() && i < 1000; i++) c[i] = s[i];
}
