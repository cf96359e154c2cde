#pragma once
#include "eg.hpp"
#include <electionguard/elgamal.hpp>
using EQ = std::unique_ptr<electionguard::ElementModQ>;
using EP = std::unique_ptr<electionguard::ElementModP>;
typedef uint64_t QL4[MAX_Q_LEN];
typedef uint64_t PL64[MAX_P_LEN];
inline EQ mkQ(const QL4 &l) { return std::make_unique<electionguard::ElementModQ>(l, true); }
inline EP mkP(const PL64 &l) { return std::make_unique<electionguard::ElementModP>(l, true); }
inline EQ qvar(const char *n) { QL4 l; eg_t_qvar(l, n); return mkQ(l); }
inline EP pvar(const char *n) { PL64 l; eg_t_pvar(l, n); return mkP(l); }
inline EQ qconst(uint64_t v) { QL4 l = {v}; return mkQ(l); }
// independent field and group arithmetic for specifications (not the library's)
inline EQ qadd(const electionguard::ElementModQ &a, const electionguard::ElementModQ &b) { QL4 r; eg_t_qadd(a.get(), b.get(), r); return mkQ(r); }
inline EQ qsub(const electionguard::ElementModQ &a, const electionguard::ElementModQ &b) { QL4 r; eg_t_qsub(a.get(), b.get(), r); return mkQ(r); }
inline EQ qmul(const electionguard::ElementModQ &a, const electionguard::ElementModQ &b) { QL4 r; eg_t_qmul(a.get(), b.get(), r); return mkQ(r); }
inline EP pmul(const electionguard::ElementModP &a, const electionguard::ElementModP &b) { PL64 r; eg_t_pmul(a.get(), b.get(), r); return mkP(r); }
inline EP ppow(const electionguard::ElementModP &b, const electionguard::ElementModQ &e) { PL64 r; eg_t_ppow(b.get(), e.get(), MAX_Q_LEN, r); return mkP(r); }
inline EP pinv(const electionguard::ElementModP &a) { PL64 r; eg_t_pinv(a.get(), r); return mkP(r); }
inline EP gen() { eg_t_set_g(G_ARRAY_REVERSE); eg_t_set_p(P_ARRAY_REVERSE); return mkP(G_ARRAY_REVERSE); }
inline EP gpow(const electionguard::ElementModQ &e) { return ppow(*gen(), e); }
inline bool qeq(const electionguard::ElementModQ &a, const electionguard::ElementModQ &b) { return eg_t_qeq(a.get(), b.get()); }
inline bool peq(const electionguard::ElementModP &a, const electionguard::ElementModP &b) { return eg_t_peq(a.get(), b.get()); }
inline EQ dup(const EQ &a) { return std::make_unique<electionguard::ElementModQ>(*a); }
inline EP dup(const EP &a) { return std::make_unique<electionguard::ElementModP>(*a); }

// any number in one of four ranges: from 0, from 2^32, around 2^63 and up to 2^64-1
inline uint64_t symFar(const char *n, uint64_t limit = 200)
{
    static const uint64_t from[] = {0, 1ull << 32, (1ull << 63) - 50, 0};
    uint32_t place = eg_choice(4, "place");
    uint8_t b[2] = {}; eg_sym_bytes(b, limit > 256 ? 2 : 1, n);
    uint64_t u = b[0] + 256u * b[1]; eg_assume(u < limit);
    return place == 3 ? ~u : from[place] + u;
}
