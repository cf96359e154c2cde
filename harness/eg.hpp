// Common helpers of the harnesses.
#pragma once
#include "egrt.h"
#include <electionguard/constants.h>
#include <electionguard/group.hpp>
#include <cstring>
#include <memory>
#define ENTRY(name) extern "C" void name()
#define MUST(c, m) eg_assert((c) ? 1 : 0, m)
#ifdef EG_NATIVE
#define KEEP
#else
#define KEEP
#endif
template <unsigned N> using uN = unsigned _BitInt(N);
using u256 = uN<256>; using u512 = uN<512>; using u4096 = uN<4096>; using u8192 = uN<8192>;
template <unsigned N> inline uN<N> fromLimbs(const uint64_t *p) { uN<N> r; memcpy(&r, p, N / 8); return r; }
