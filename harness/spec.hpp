// The hash of the specification, written independently of the library.
#pragma once
#include "mk.hpp"
extern "C" void Hacl_Hash_SHA2_hash_256(uint8_t *in, uint32_t n, uint8_t *out);
namespace electionguard { std::unique_ptr<ElementModQ> bytes_to_q(const uint8_t *bytes, size_t size, bool unchecked); }
inline EQ H(const string &s)
{
    uint8_t o[32];
    Hacl_Hash_SHA2_hash_256((uint8_t *)s.data(), (uint32_t)s.size(), o);
    auto e = eg::bytes_to_q(o, 32, true);
    return qadd(*e, *qconst(0));
}
inline string dec(uint64_t v) { string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
inline string num(uint64_t v) { return v ? dec(v) : string("null"); }
inline EQ HL(const vector<string> &items) { string s = "|"; for (auto &i : items) s += i + "|"; return H(s); }
inline uint64_t symU(const char *n, uint64_t limit)
{
    uint8_t b[2] = {}; eg_sym_bytes(b, limit > 256 ? 2 : 1, n);
    uint64_t u = b[0] + 256u * b[1]; eg_assume(u < limit); return u;
}
// a text of one or two bytes without the delimiter
inline string symText(const char *n, uint32_t len = 1) { char c[8]; eg_sym_bytes(c, len, n); for (uint32_t i = 0; i < len; i++) eg_assume(c[i] != '|' && c[i] != 0); return string(c, len); }
