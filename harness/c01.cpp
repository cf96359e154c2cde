// C01: arithmetic modulo q is exact and canonical for every canonical operand
#include "eg.hpp"
#include <functional>
#include <stdexcept>
#include <vector>
using namespace electionguard;
static std::unique_ptr<ElementModQ> symQ(const char *n)
{
    uint64_t l[4];
    eg_sym(l, 32, n);
    eg_assume(fromLimbs<256>(l) < fromLimbs<256>(Q_ARRAY_REVERSE));
    return std::make_unique<ElementModQ>(l, true);
}
static u512 val(const ElementModQ &e) { return fromLimbs<256>(e.get()); }
static u512 q() { return fromLimbs<256>(Q_ARRAY_REVERSE); }
static std::unique_ptr<ElementModQ> num(uint64_t v) { uint64_t l[4] = {v}; return std::make_unique<ElementModQ>(l, true); }
ENTRY(h_add)
{
    auto a = symQ("a"), b = symQ("b");
    u512 x = val(*a), y = val(*b), s = x + y;
    auto r = add_mod_q(*a, *b);
    MUST(val(*r) == (s < q() ? s : s - q()), "(a+b) mod q");
    MUST(val(*a) == x && val(*b) == y, "operands are left alone");
    eg_reach(1);
}
ENTRY(h_sub)
{
    auto a = symQ("a"), b = symQ("b");
    u512 x = val(*a), y = val(*b), s = x + q() - y;
    auto r = sub_mod_q(*a, *b);
    MUST(val(*r) == (s < q() ? s : s - q()), "(a-b) mod q");
    MUST(val(*a) == x && val(*b) == y, "operands are left alone");
    eg_reach(1);
}
ENTRY(h_neg)
{
    auto a = symQ("a");
    u512 x = val(*a);
    auto r = sub_from_q(*a);
    MUST(val(*r) == (x == 0 ? x : q() - x), "(-a) mod q");
    eg_reach(1);
}
// a + b*c with the product's residue taken from its contract
ENTRY(h_mul_add)
{
    auto a = symQ("a"), b = symQ("b"), c = symQ("c");
    uint64_t p[8], m[4];
    eg_bn_mul(b->get(), 4, c->get(), 4, p);
    eg_bn_mod(p, 8, Q_ARRAY_REVERSE, 4, m);
    u512 s = val(*a) + fromLimbs<256>(m);
    auto r = a_plus_bc_mod_q(*a, *b, *c);
    MUST(val(*r) == (s < q() ? s : s - q()), "(a+bc) mod q");
    eg_reach(1);
}
// the same with one factor small, so that a failure comes with operands that show it
ENTRY(h_mul_add_small)
{
    auto a = symQ("a"), b = symQ("b");
    uint64_t k = eg_choice(3, "factor"), left = eg_choice(2, "left");
    auto r = left ? a_plus_bc_mod_q(*a, *num(k), *b) : a_plus_bc_mod_q(*a, *b, *num(k));
    u512 s = val(*a) + (k == 0 ? (u512)0 : k == 1 ? val(*b) : val(*b) + val(*b));
    u512 t = s < q() ? s : s - q();
    t = t < q() ? t : t - q();
    MUST(val(*r) == t, "(a+bc) mod q for a small factor");
    eg_reach(1);
}
ENTRY(h_sum)
{
    std::vector<std::unique_ptr<ElementModQ>> v;
    std::vector<std::reference_wrapper<ElementModQ>> w;
    uint32_t n = eg_choice(4, "count");
    u512 s = 0;
    for (uint32_t i = 0; i < n; i++) { v.push_back(symQ("x")); w.push_back(*v.back()); s = s + val(*v.back()); s = s < q() ? s : s - q(); }
    if (n == 0) { bool threw = false; try { add_mod_q(w); } catch (const std::invalid_argument &) { threw = true; } MUST(threw, "the sum of nothing is refused"); eg_reach(2); return; }
    auto r = add_mod_q(w);
    MUST(val(*r) == s, "sum of a list mod q");
    eg_reach(1);
}
