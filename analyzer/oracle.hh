// Reference meaning of every analysed operation, stated per bit over the operand bits
// (IEEE 1800-2017 clauses 6, 7, 11 and 21.2 restricted to what the library supports).
#pragma once
#include <map>
#include <string>
#include <vector>

#include "interp.hh"

using Bits = std::vector<Lit>;
struct Operand {
    std::string k;  // L four-state, B two-state, I plain integer, C characters
    uint32_t w = 0;
    bool s = false;
    Bits v, m;                // w bits each (m all zero for B, I)
    std::vector<Bits> chars;  // C
};
struct ResType { std::string k; uint32_t w = 0; bool s = false; int frame = -1; };
struct Expect {
    bool have = false;
    Bits v, m;
    Lit careV = 1, careM = 1;        // where value/unknown bits are specified
    Lit careX = 0;                   // where the result is x: value bits must be 0
    std::string kv = "val", km = "mask", kx = "xval";
    // strings
    bool str = false;
    std::vector<Bits> chars;
    Bits len;
};
struct Probe {
    std::string id, fn, op, text;
    std::vector<Operand> ops;
    std::vector<ResType> res;
    std::map<std::string, int64_t> p;
    std::map<std::string, std::string> ps;
    std::vector<int> first;
    int64_t get(const char *n, int64_t d = 0) const { auto it = p.find(n); return it == p.end() ? d : it->second; }
    std::string gets(const char *n) const { auto it = ps.find(n); return it == ps.end() ? "" : it->second; }
};
std::vector<Expect> oracle(Interp &I, const Probe &p);
