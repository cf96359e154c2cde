// C28: what is secret does not stay behind in released memory.
#include "mk.hpp"
#include <electionguard/hmac.hpp>
using namespace electionguard;
typedef vector<uint8_t> Bytes;
// an element made in any way; its memory is watched until it is released
static const char *Qn = "an element modulo q", *Pn = "an element modulo p";
static void watch(const ElementModQ &e) { eg_watch_wipe(e.get(), 32, Qn); }
static void watch(const ElementModP &e) { eg_watch_wipe(e.get(), 512, Pn); }
static EQ mkQ(uint32_t how)
{
    uint64_t l[4];
    eg_sym(l, 32, "value");
    l[3] &= 0x7fffffffffffffff; // below q
    EQ first = make_unique<ElementModQ>(l, true);
    watch(*first);
    switch (how) {
    case 0: return first;
    case 1: { Bytes v = first->toBytes(); vector<uint64_t> w(l, l + 4); auto r = make_unique<ElementModQ>(w, true); watch(*r); return r; }
    case 2: { auto r = make_unique<ElementModQ>(*first); watch(*r); return r; }
    case 3: { ElementModQ t(*first); watch(t); auto r = make_unique<ElementModQ>(t); watch(*r); return r; }
    case 4: { auto r = make_unique<ElementModQ>(l, true); watch(*r); *r = *first; watch(*r); return r; }
    case 5: { auto r = make_unique<ElementModQ>(l, true); watch(*r); auto &same = *r; *r = same; watch(*r); return r; }
    case 6: { auto r = first->clone(); watch(*r); return r; }
    default: { auto r = ElementModQ::fromUint64(l[0], true); watch(*r); return r; }
    }
}
ENTRY(h_q)
{
    auto e = mkQ(eg_choice(8, "how"));
    bool viaP = eg_choice(2, "toElementModP");
    if (viaP) { auto p = e->toElementModP(); watch(*p); }
    e.reset();
    eg_reach(1);
}
ENTRY(h_p)
{
    uint64_t l[64];
    eg_sym(l, 512, "value");
    EP e, first = make_unique<ElementModP>(l, true);
    watch(*first);
    switch (eg_choice(8, "how")) {
    case 0: break;
    case 1: { vector<uint64_t> w(l, l + 64); e = make_unique<ElementModP>(w, true); watch(*e); break; }
    case 2: e = make_unique<ElementModP>(*first); watch(*e); break;
    case 3: { ElementModP t(*first); watch(t); e = make_unique<ElementModP>(t); watch(*e); break; }
    case 4: e = make_unique<ElementModP>(l, true); watch(*e); *e = *first; watch(*e); break;
    case 5: { e = make_unique<ElementModP>(l, true); watch(*e); auto &same = *e; *e = same; watch(*e); break; }
    case 6: e = first->clone(); watch(*e); break;
    default: e = ElementModP::fromUint64(l[0], true); watch(*e); break;
    }
    first.reset();
    e.reset();
    eg_reach(1);
}
// keys derived by hashed ElGamal encryption and decryption
ENTRY(h_keys)
{
    auto secret = qvar("secret"), nonce = qvar("nonce"), seed = qvar("seed");
    EP key = gpow(*secret);
    bool padded = eg_choice(2, "padded");
    size_t blocks = 1 + eg_choice(2, "blocks");
    Bytes msg(padded ? 32 * blocks - 2 : 32 * blocks);
    eg_sym_bytes(msg.data(), msg.size(), "message");
    eg_secrets(1);
    eg_secret(nonce->get(), 32, "the nonce");
    eg_secret(secret->get(), 32, "the secret key");
    auto c = hashedElgamalEncrypt(msg, *nonce, *key, *seed, padded ? (padded_data_size_t)(32 * blocks - 2) : NO_PADDING, false);
    uint32_t kind = eg_choice(3, "decrypt");
    if (kind == 1) c->decrypt(*secret, *seed, padded);
    else if (kind == 2) {
        auto mac = c->getMac();
        mac[7] ^= 1;
        HashedElGamalCiphertext f(make_unique<ElementModP>(*c->getPad()), c->getData(), mac);
        bool threw = false;
        try { f.decrypt(*secret, *seed, padded); } catch (const std::runtime_error &) { threw = true; }
        MUST(threw, "an altered MAC is refused");
    }
    nonce.reset();
    secret.reset();
    eg_reach(1);
}
ENTRY(h_hmac)
{
    Bytes key(8 + eg_choice(3, "key") * 28), msg(eg_choice(2, "message") ? 40 : 32);
    for (size_t i = 0; i < key.size(); i++) key[i] = (uint8_t)(37 * i + 11);
    eg_sym_bytes(msg.data(), msg.size(), "message");
    eg_secrets(1);
    {
        Bytes arg = key; // given away
        auto mac = get_hmac(std::move(arg), msg, eg_choice(2, "length") ? 256 : 0, 1);
        for (auto &b : mac) b = 0;
    }
    for (auto &b : key) b = 0;
    eg_reach(1);
}
