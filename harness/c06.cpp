// C06: the exact bytes hashed for every kind of item, nested lists and empty values.  C07: the nonce sequence.
#include "mk.hpp"
#include "nonces.hpp"
#include <optional>
#include <stdexcept>
using namespace electionguard;
extern "C" void Hacl_Hash_SHA2_hash_256(uint8_t *in, uint32_t n, uint8_t *out);
namespace electionguard { std::unique_ptr<ElementModQ> bytes_to_q(const uint8_t *bytes, size_t size, bool unchecked); }
// SHA-256 of a text, as a number modulo q
static EQ H(const string &s)
{
    uint8_t o[32];
    Hacl_Hash_SHA2_hash_256((uint8_t *)s.data(), (uint32_t)s.size(), o);
    auto e = bytes_to_q(o, 32, true);
    return qadd(*e, *qconst(0));
}
static string dec(uint64_t v) { string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
static EQ HL(const vector<string> &items) { string s = "|"; for (auto &i : items) s += i + "|"; return H(s); }
static string nested(const vector<string> &items) { return items.empty() ? "null" : HL(items)->toHex(); }
struct Thing : CryptoHashable {
    EQ h; explicit Thing(EQ e) : h(std::move(e)) {}
    unique_ptr<ElementModQ> crypto_hash() override { return dup(h); }
    unique_ptr<ElementModQ> crypto_hash() const override { return dup(h); }
};
struct Pool { EQ q[2]; EP p[2]; unique_ptr<Thing> t[2]; uint64_t u[2]; string s[2]; uint8_t b[3]; };
static string symString(const char *n, size_t len) { char c[8]; if (len) eg_sym_bytes(c, len, n); return string(c, len); }
static void fill(Pool &x)
{
    for (int i = 0; i < 2; i++) { x.q[i] = qvar(i ? "q1" : "q0"); x.p[i] = pvar(i ? "p1" : "p0"); x.t[i] = make_unique<Thing>(qvar(i ? "h1" : "h0")); }
}
static uint64_t symU(const char *n, uint64_t limit)
{
    uint8_t b[2] = {}; eg_sym_bytes(b, limit > 256 ? 2 : 1, n);
    uint64_t u = b[0] + 256u * b[1]; eg_assume(u < limit); return u;
}
// one item of the given kind and what it must contribute to the hashed text
static CryptoHashableType item(uint32_t kind, Pool &x, string &want, uint32_t nvec)
{
    vector<string> w;
    auto uenc = [](uint64_t u) { return u ? dec(u) : string("null"); };
    auto senc = [](const string &s) { return s.empty() ? string("null") : s; };
#define VEC(T, expr, enc) { vector<T> v; for (uint32_t i = 0; i < nvec; i++) { v.push_back(expr); w.push_back(enc); } want = nested(w); return v; }
    switch (kind) {
    case 0: want = "null"; return nullptr;
    case 1: want = x.t[0]->h->toHex(); return (CryptoHashable *)x.t[0].get();
    case 2: want = x.p[0]->toHex(); return x.p[0].get();
    case 3: want = x.q[0]->toHex(); return x.q[0].get();
    case 4: want = x.t[0]->h->toHex(); return std::reference_wrapper<CryptoHashable>(*x.t[0]);
    case 5: want = x.p[0]->toHex(); return std::ref(*x.p[0]);
    case 6: want = x.q[0]->toHex(); return std::ref(*x.q[0]);
    case 7: want = x.t[0]->h->toHex(); return std::reference_wrapper<const CryptoHashable>(*x.t[0]);
    case 8: want = x.p[0]->toHex(); return std::cref(*x.p[0]);
    case 9: want = x.q[0]->toHex(); return std::cref(*x.q[0]);
    case 10: { uint64_t u = symFar("u", eg_def("limit", 256)); want = uenc(u); return u; }
    case 11: { string s = symString("s", eg_choice(3, "strlen")); want = senc(s); return s; }
    case 12: VEC(CryptoHashable *, x.t[i % 2].get(), x.t[i % 2]->h->toHex())
    case 13: VEC(ElementModP *, x.p[i % 2].get(), x.p[i % 2]->toHex())
    case 14: VEC(ElementModQ *, x.q[i % 2].get(), x.q[i % 2]->toHex())
    case 15: VEC(std::reference_wrapper<CryptoHashable>, *x.t[i % 2], x.t[i % 2]->h->toHex())
    case 16: VEC(std::reference_wrapper<ElementModP>, *x.p[i % 2], x.p[i % 2]->toHex())
    case 17: VEC(std::reference_wrapper<ElementModQ>, *x.q[i % 2], x.q[i % 2]->toHex())
    case 18: VEC(std::reference_wrapper<const CryptoHashable>, *x.t[i % 2], x.t[i % 2]->h->toHex())
    case 19: VEC(std::reference_wrapper<const ElementModP>, *x.p[i % 2], x.p[i % 2]->toHex())
    case 20: VEC(std::reference_wrapper<const ElementModQ>, *x.q[i % 2], x.q[i % 2]->toHex())
    case 21: VEC(uint64_t, (x.u[i % 2] = symFar("vu", 100)), uenc(x.u[i % 2]))
    case 22: VEC(string, (x.s[i % 2] = symString("vs", 1)), senc(x.s[i % 2]))
    default: {
        vector<uint8_t> v; bool seen = false;
        for (uint32_t i = 0; i < nvec; i++) {
            uint8_t b; eg_sym_bytes(&b, 1, "byte"); v.push_back(b);
            if (b || seen) { seen = true; want += "0123456789ABCDEF"[eg_concretize(b >> 4)]; want += "0123456789ABCDEF"[eg_concretize(b & 15)]; }
        }
        if (!seen) want = "00";
        return v;
    }
    }
}
ENTRY(h_item)
{
    Pool x; fill(x);
    uint32_t kind = eg_choice(24, "kind"), nvec = kind >= 12 ? eg_choice(kind == 23 ? 2 : 4, "entries") : 0;
    string want;
    auto it = item(kind, x, want, nvec);
    auto expect = H("|" + want + "|");
    MUST(qeq(*hash_elems(it), *expect), "a single item is hashed as its encoding between delimiters");
    MUST(qeq(*hash_elems(vector<CryptoHashableType>{it}), *expect), "a list of one item is hashed like the item");
    eg_reach(kind < 12 ? 1 : 2);
}
ENTRY(h_list)
{
    Pool x; fill(x);
    uint32_t n = eg_choice((uint32_t)eg_def("n", 3) + 1, "items");
    vector<CryptoHashableType> v; string text = "|";
    static const uint32_t kinds[] = {0, 3, 10, 11, 14, 22};
    for (uint32_t i = 0; i < n; i++) {
        uint32_t k = kinds[eg_choice(6, "kind")]; string w;
        v.push_back(item(k, x, w, k == 14 ? 2 : 1));
        text += w + "|";
    }
    if (n == 0) text = "|null|";
    MUST(qeq(*hash_elems(v), *H(text)), "a list is hashed as the encodings of its items, in order, between delimiters");
    eg_reach(n ? 1 : 2);
}
ENTRY(h_nonces)
{
    auto seed = qvar("seed");
    auto hq = qvar("header_q"); auto hp = pvar("header_p");
    uint32_t how = eg_choice(4, "headers");
    std::optional<Nonces> n; EQ base;
    if (how == 0) { n.emplace(*seed); base = dup(seed); }
    if (how == 1) { string h = symString("header", 2); n.emplace(*seed, h); base = HL({seed->toHex(), h}); }
    if (how == 2) { n.emplace(*seed, hq.get()); base = HL({seed->toHex(), hq->toHex()}); }
    if (how == 3) { n.emplace(*seed, hp.get()); base = HL({seed->toHex(), hp->toHex()}); }
    uint64_t next = 0;
    static const uint64_t far[] = {0, 0xfffffff8, 1ull << 63, 0x00ffffffffffff80};
    auto place = [&](uint64_t below) { return far[eg_choice(4, "place")] + symU("index", below); };
    auto at = [&](uint64_t i) { return HL({base->toHex(), i ? dec(i) : "null"}); };
    for (uint32_t s = 0; s < (uint32_t)eg_def("steps", 3); s++) {
        uint32_t op = eg_choice(4, "op");
        if (op == 0) { MUST(qeq(*n->next(), *at(next)), "the next nonce follows the last one asked for"); next++; }
        if (op == 1) { uint64_t i = place(100); MUST(qeq(*n->get(i), *at(i)), "a nonce depends on the seed, header and index only"); next = i + 1; }
        if (op == 2) {
            uint64_t i = place(10); string h = symString("extra", 1);
            MUST(qeq(*n->get(i, h), *HL({base->toHex(), i ? dec(i) : "null", h})), "a nonce with a header of its own also depends on that header");
            next = i + 1;
        }
        if (op == 3) {
            uint64_t i = place(10); uint32_t c = eg_choice(3, "count");
            auto r = n->get(i, (uint64_t)c);
            MUST(r.size() == c, "a range of nonces has the requested length");
            for (uint32_t k = 0; k < c; k++) { MUST(qeq(*r[k], *at(i + k)), "a range of nonces equals the nonces one by one"); next = i + k + 1; }
        }
    }
    eg_reach(1);
}
// no two different (seed, header, index) triples give the same nonce
ENTRY(h_nonces_distinct)
{
    auto s0 = qvar("seed0"), s1 = qvar("seed1");
    bool sameSeed = eg_choice(2, "same_seed");
    uint32_t hdr = eg_choice(3, "headers");
    string h0 = symString("h0", 1 + eg_choice(2, "len0")), h1 = symString("h1", 1 + eg_choice(2, "len1"));
    for (char c : h0 + h1) eg_assume(c != '|');
    static const uint64_t far[] = {0, 0xffffff80, 1ull << 63};
    uint64_t i0 = far[eg_choice(3, "place0")] + symU("i0", eg_def("limit", 256)), i1 = far[eg_choice(3, "place1")] + symU("i1", eg_def("limit", 256));
    Nonces a = hdr == 1 ? Nonces(*s0, h0) : Nonces(*s0), b = hdr == 1 ? Nonces(sameSeed ? *s0 : *s1, h1) : Nonces(sameSeed ? *s0 : *s1);
    EQ x = hdr == 2 ? a.get(i0, h0) : a.get(i0), y = hdr == 2 ? b.get(i1, h1) : b.get(i1);
    bool same = sameSeed && i0 == i1 && (hdr == 0 || h0 == h1);
    bool eq = qeq(*x, *y);
    MUST(eq == same, "different seeds, headers or indices give different nonces and equal ones the same nonce");
    eg_reach(same ? 1 : 2);
}
