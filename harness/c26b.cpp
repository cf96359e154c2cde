// C26: elements and the fixed-base tables used from several threads (real group code)
#include "sym.hpp"
#include <string>
using namespace electionguard;
struct Ctx { EP a, b; EQ q; uint32_t op[4]; std::string s[4]; EP r[4]; bool f[4]; };
static void elemOp(void *p, unsigned i)
{
    Ctx &c = *(Ctx *)p;
    switch (c.op[i]) {
    case 0: c.s[i] = c.a->toHex(); break;
    case 1: c.r[i] = c.a->clone(); break;
    case 2: c.s[i] = c.q->toHex(); break;
    case 3: c.f[i] = c.a->isInBounds(); break;
    case 4: c.f[i] = *c.a == *c.b; break;
    case 5: c.f[i] = c.q->isInBounds() && c.a->isFixedBase(); break;
    case 6: c.r[i] = std::make_unique<ElementModP>(G()); break;
    case 7: c.f[i] = c.a->toBytes().size() == 512; break;
    }
}
ENTRY(h_elements)
{
    unsigned n = (unsigned)eg_def("threads", 2);
    auto c = std::make_unique<Ctx>();
    uint64_t l[64] = {5, 7, 9}, m[4] = {3, 1};
    c->a = mkP(l); l[2] = 1; c->b = mkP(l); c->q = mkQ(m);
    c->b->toHex(); // (the stream library's own lazily made tables)
    if (eg_choice(2, "warm")) { c->a->toHex(); G(); P(); Q(); }
    uint32_t last = 0;
    for (unsigned i = 0; i < n; i++) { c->op[i] = eg_choice(8, "op"); eg_assume(c->op[i] >= last); last = c->op[i]; }
    eg_threads(n, elemOp, c.get());
    for (unsigned i = 0; i < n; i++) {
        if (c->op[i] == 0) MUST(c->s[i] == "0900000000000000070000000000000005", "hexadecimal form");
        if (c->op[i] == 1) MUST(*c->r[i] == *c->a, "clone");
        if (c->op[i] == 3) MUST(c->f[i], "range");
    }
    eg_reach(1);
}
static void powOp(void *p, unsigned i)
{
    Ctx &c = *(Ctx *)p;
    if (c.op[i] == 0) c.r[i] = pow_mod_p(*c.a, *c.q);
    if (c.op[i] == 1) c.r[i] = pow_mod_p(*c.b, *c.q);
    if (c.op[i] == 2) c.r[i] = g_pow_p(*c.q);
}
// exponentiation with bases marked as fixed: tables are made and looked up concurrently
ENTRY(h_tables)
{
    unsigned n = (unsigned)eg_def("threads", 2);
    auto c = std::make_unique<Ctx>();
    gen();
    c->a = pvar("a"); c->b = pvar("b"); c->q = qconst(3);
    c->a->setIsFixedBase(true); c->b->setIsFixedBase(true);
    uint32_t warm = eg_choice((uint32_t)eg_def("warm", 2), "warm"); // nothing cached; this base cached; another one cached
    if (warm != 2) pow_mod_p(warm ? *c->a : *c->b, *c->q);
    uint32_t last = 0;
    for (unsigned i = 0; i < n; i++) { c->op[i] = eg_choice(warm == 2 ? 3 : 2, "op"); eg_assume(c->op[i] >= last); last = c->op[i]; }
    eg_threads(n, powOp, c.get());
    for (unsigned i = 0; i < n; i++) MUST(peq(*c->r[i], *ppow(c->op[i] == 0 ? *c->a : c->op[i] == 1 ? *c->b : *gen(), *c->q)), "exponentiation from several threads is exponentiation");
    eg_reach(1);
}
