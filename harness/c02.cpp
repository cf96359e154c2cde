// C02: arithmetic modulo p is exact and canonical
#include "eg.hpp"
#include <vector>
using namespace electionguard;
static u8192 p() { return fromLimbs<4096>(P_ARRAY_REVERSE); }
static u8192 val(const ElementModP &e) { return fromLimbs<4096>(e.get()); }
static std::unique_ptr<ElementModP> symAny(const char *n, bool fixed = false)
{
    uint64_t l[64];
    eg_sym(l, 512, n);
    return std::make_unique<ElementModP>(l, true, fixed);
}
static std::unique_ptr<ElementModP> symP(const char *n)
{
    auto r = symAny(n);
    eg_assume(val(*r) < p());
    return r;
}
static std::unique_ptr<ElementModQ> symQ(const char *n)
{
    uint64_t l[4];
    eg_sym(l, 32, n);
    eg_assume(fromLimbs<256>(l) < fromLimbs<256>(Q_ARRAY_REVERSE));
    return std::make_unique<ElementModQ>(l, true);
}
static u8192 red(u8192 s) { return s < p() ? s : s - p(); }
static u8192 modmul(const uint64_t *a, const uint64_t *b)
{
    uint64_t t[128], m[64];
    eg_bn_mul(a, 64, b, 64, t);
    eg_bn_mod(t, 128, P_ARRAY_REVERSE, 64, m);
    return fromLimbs<4096>(m);
}
static std::unique_ptr<ElementModP> num(uint64_t v) { uint64_t l[64] = {v}; return std::make_unique<ElementModP>(l, true); }
ENTRY(h_add)
{
    auto a = symP("a"), b = symP("b");
    u8192 x = val(*a), y = val(*b);
    auto r = add_mod_p(*a, *b);
    MUST(val(*r) == red(x + y), "(a+b) mod p");
    MUST(val(*a) == x && val(*b) == y, "operands are left alone");
    eg_reach(1);
}
ENTRY(h_mod)
{
    auto a = symAny("a");
    auto r = mod_p(*a);
    MUST(val(*r) == red(val(*a)), "a mod p");
    eg_reach(1);
}
ENTRY(h_mul)
{
    auto a = symP("a"), b = symP("b");
    auto r = mul_mod_p(*a, *b);
    MUST(val(*r) == modmul(a->get(), b->get()), "ab mod p");
    eg_reach(1);
}
ENTRY(h_mul_small)
{
    auto a = symP("a");
    uint64_t k = eg_choice(3, "factor"), left = eg_choice(2, "left");
    auto r = left ? mul_mod_p(*num(k), *a) : mul_mod_p(*a, *num(k));
    MUST(val(*r) == (k == 0 ? (u8192)0 : k == 1 ? val(*a) : red(val(*a) + val(*a))), "ab mod p for a small factor");
    eg_reach(1);
}
// a list is multiplied out, whatever mixture of exponents and group elements it is
ENTRY(h_mul_list)
{
    std::vector<std::unique_ptr<ElementModP>> ps;
    std::vector<std::unique_ptr<ElementModQ>> qs;
    std::vector<ElementModPOrQ> v;
    uint32_t n = eg_choice(4, "count");
    uint64_t acc[64] = {1};
    for (uint32_t i = 0; i < n; i++) {
        uint64_t w[64] = {};
        if (eg_choice(2, "kind")) { qs.push_back(symQ("q")); memcpy(w, qs.back()->get(), 32); v.push_back(qs.back().get()); }
        else { ps.push_back(symP("p")); memcpy(w, ps.back()->get(), 512); v.push_back(ps.back().get()); }
        u8192 m = modmul(acc, w);
        memcpy(acc, &m, 512);
    }
    auto r = mul_mod_p(v);
    MUST(val(*r) == fromLimbs<4096>(acc), "product of a list mod p");
    eg_reach(1);
}
static void expect(const ElementModP &r, const uint64_t *base, const uint64_t *e, unsigned n)
{
    bool zero = true;
    for (unsigned i = 0; i < n; i++) zero &= e[i] == 0;
    if (zero) { MUST(val(r) == 1, "b^0 = 1"); eg_reach(2); return; }
    uint64_t w[64];
    eg_bn_powmod(base, e, n, w);
    MUST(val(r) == fromLimbs<4096>(w), "b^e mod p");
    eg_reach(1);
}
ENTRY(h_pow_p)
{
    auto b = symP("base"), e = symP("exp");
    auto r = pow_mod_p(*b, *e);
    expect(*r, b->get(), e->get(), 64);
}
ENTRY(h_pow_q)
{
    auto b = symP("base");
    auto e = symQ("exp");
    auto r = pow_mod_p(*b, *e);
    expect(*r, b->get(), e->get(), 4);
}
ENTRY(h_gpow_p)
{
    auto e = symP("exp");
    auto r = g_pow_p(*e);
    expect(*r, G_ARRAY_REVERSE, e->get(), 64);
}
