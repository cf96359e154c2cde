// C09: hashed ElGamal encryption of byte strings.
#include "mk.hpp"
using namespace electionguard;
typedef vector<uint8_t> Bytes;
static Bytes symBytes(size_t n, const char *name) { Bytes v(n); if (n) eg_sym_bytes(v.data(), n, name); return v; }
struct Keys { EQ secret; EP key; EQ seed; };
static Keys mkKeys() { Keys k; k.secret = qvar("secret"); k.key = gpow(*k.secret); k.seed = qvar("seed"); return k; }
static bool same(const Bytes &a, const Bytes &b)
{
    if (a.size() != b.size()) return false;
    unsigned d = 0;
    for (size_t i = 0; i < a.size(); i++) d |= (unsigned)(a[i] ^ b[i]);
    return d == 0;
}
ENTRY(h_roundtrip)
{
    auto k = mkKeys();
    auto nonce = qvar("nonce");
    const unsigned maxes[] = {0, 30, 62, (unsigned)BYTES_512};
    unsigned mi = eg_choice((unsigned)eg_def("sizes", 4), "max_len"), max = maxes[mi];
    size_t len;
    if (max == 0) { const size_t ls[] = {32, 64, 96, 1, 31, 33, 63}; len = ls[eg_choice(7, "len")]; }
    else {
        const int off[] = {0, -1, 1, 33};
        unsigned c = eg_choice(7, "len");
        len = c < 4 ? max + off[c] : c == 4 ? 0 : c == 5 ? 1 : max / 2;
    }
    bool trunc = eg_choice(2, "truncate"), pre = eg_choice(2, "precomputed");
    if (pre) { PrecomputeBufferContext::init(2); PrecomputeBufferContext::populate(*k.key); }
    Bytes msg = symBytes(len, "message");
    bool ok = max ? len <= max || trunc : len % 32 == 0;
    unique_ptr<HashedElGamalCiphertext> c;
    try { c = hashedElgamalEncrypt(msg, *nonce, *k.key, *k.seed, (padded_data_size_t)max, trunc); } catch (const std::invalid_argument &) {}
    MUST((c != nullptr) == ok, "exactly the messages that fit are encrypted");
    if (!ok) { eg_reach(2); return; }
    Bytes want(msg.begin(), msg.begin() + (max && len > max ? max : len));
    MUST(c->getData().size() == (max ? max + 2 : len), "the ciphertext length depends on the padded size only");
    if (!pre) MUST(peq(*c->getPad(), *gpow(*nonce)), "the pad is g^nonce");
    auto back = c->decrypt(*k.secret, *k.seed, max != 0);
    MUST(same(back, want), "decryption gives back the message");
    auto again = c->clone()->decrypt(*k.secret, *k.seed, max != 0);
    MUST(same(again, want), "and does so again for a copy");
    eg_reach(1);
}
// any change of the ciphertext, secret or seed is detected
ENTRY(h_reject)
{
    auto k = mkKeys();
    auto nonce = qvar("nonce");
    bool padded = eg_choice(2, "padded");
    Bytes msg = symBytes(padded ? 40 : 64, "message");
    auto c = hashedElgamalEncrypt(msg, *nonce, *k.key, *k.seed, padded ? (padded_data_size_t)62 : NO_PADDING, false);
    auto data = c->getData(), mac = c->getMac();
    auto pad = make_unique<ElementModP>(*c->getPad());
    EQ secret = dup(k.secret), seed = dup(k.seed);
    uint32_t kind = eg_choice(11, "kind");
    auto alter = [](Bytes &v) { uint8_t d; eg_sym_bytes(&d, 1, "difference"); eg_assume(d != 0); const size_t at[] = {0, 1, 15, 31, 32, 63}; size_t i = at[eg_choice(6, "position")]; if (i >= v.size()) i = v.size() - 1; v[i] ^= d; };
    switch (kind) {
    case 0: alter(data); break;
    case 1: alter(mac); break;
    case 2: { auto p = pvar("other_pad"); eg_assume(!peq(*p, *pad)); pad = std::move(p); break; }
    case 3: data.resize(32); break;
    case 4: data.resize(96, 0); break;
    case 5: { Bytes s(data.begin() + 32, data.end()); s.insert(s.end(), data.begin(), data.begin() + 32); eg_assume(!same(s, data)); data = s; break; }
    case 6: { auto s = qvar("other_secret"); eg_assume(!qeq(*s, *secret)); secret = std::move(s); eg_assume(!qeq(*nonce, *qconst(0))); break; }
    case 7: { auto s = qvar("other_seed"); eg_assume(!qeq(*s, *seed)); seed = std::move(s); break; }
    case 8: mac.resize(eg_choice(2, "maclen") ? 31 : 0); break;
    case 9: mac.push_back(0); break;
    case 10: data.resize(eg_choice(2, "datalen") ? 63 : 0); break;
    }
    HashedElGamalCiphertext f(std::move(pad), data, mac);
    bool threw = false;
    try { f.decrypt(*secret, *seed, padded); } catch (const std::exception &) { threw = true; }
    MUST(threw, "an altered ciphertext, secret key or seed is detected");
    eg_reach(1);
}
// whatever the authentic plaintext holds where the length of the padding is expected: either it is padding and is removed,
// or decryption is refused
ENTRY(h_padding)
{
    auto k = mkKeys();
    auto nonce = qvar("nonce");
    size_t n = 32 * (1 + eg_choice(eg_def("blocks", 2), "blocks"));
    Bytes msg = symBytes(n, "message");
    auto c = hashedElgamalEncrypt(msg, *nonce, *k.key, *k.seed, NO_PADDING, false);
    Bytes back;
    bool threw = false;
    try { back = c->decrypt(*k.secret, *k.seed, true); } catch (const std::runtime_error &) { threw = true; }
    size_t pad = msg[0] * 256u + msg[1];
    bool ok = pad <= n - 2;
    for (size_t i = 0; ok && i < pad; i++) ok = msg[n - 1 - i] == 0;
    MUST(threw == !ok, "padding is accepted exactly if it fits and is made of zeros");
    if (ok) MUST(same(back, Bytes(msg.begin() + 2, msg.end() - pad)), "what is not padding is given back");
    eg_reach(ok ? 1 : 2);
}
// no part of the key stream is ever used twice, and nothing of the message shows
ENTRY(h_keystream)
{
    auto k = mkKeys();
    auto n0 = qvar("nonce0"), n1 = qvar("nonce1"), s1 = qvar("seed1");
    bool otherSeed = eg_choice(2, "vary_seed");
    if (otherSeed) { eg_assume(!qeq(*s1, *k.seed)); n1 = dup(n0); } else { eg_assume(!qeq(*n0, *n1)); s1 = dup(k.seed); }
    Bytes m0 = symBytes(96, "m0"), m1 = symBytes(64, "m1");
    auto c0 = hashedElgamalEncrypt(m0, *n0, *k.key, *k.seed, NO_PADDING, false);
    auto c1 = hashedElgamalEncrypt(m1, *n1, *k.key, *s1, NO_PADDING, false);
    vector<Bytes> ks;
    auto collect = [&](const HashedElGamalCiphertext &c, const Bytes &m) {
        auto d = c.getData();
        MUST(d.size() == m.size(), "length");
        for (size_t i = 0; i < d.size(); i += 32) { Bytes b(32); for (size_t j = 0; j < 32; j++) b[j] = d[i + j] ^ m[i + j]; ks.push_back(b); }
        ks.push_back(c.getMac());
    };
    collect(*c0, m0); collect(*c1, m1);
    for (size_t i = 0; i < ks.size(); i++) {
        unsigned any = 0;
        for (auto b : ks[i]) any |= b;
        MUST(any != 0, "every block is masked");
        for (size_t j = 0; j < i; j++) MUST(!same(ks[i], ks[j]), "no two blocks are masked alike, within a message or across nonces and seeds");
    }
    eg_reach(1);
}
