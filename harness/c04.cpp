// C04: element encodings (hex, bytes, integers) are faithful and range checks are exact.
#include "sym.hpp"
#include <stdexcept>
#include <string>
#include <vector>
using namespace electionguard;
using std::string;
using std::vector;
namespace electionguard {
    std::unique_ptr<ElementModP> bytes_to_p(const uint8_t *bytes, size_t size, bool unchecked);
    std::unique_ptr<ElementModP> bytes_to_p(vector<uint8_t> bytes, bool unchecked);
    std::unique_ptr<ElementModQ> bytes_to_q(const uint8_t *bytes, size_t size, bool unchecked);
    std::unique_ptr<ElementModQ> bytes_to_q(vector<uint8_t> bytes, bool unchecked);
}
struct TQ { typedef ElementModQ E; enum { L = MAX_Q_LEN, N = MAX_Q_SIZE, B = 256 }; static const uint64_t *mod() { return Q_ARRAY_REVERSE; }
    static std::unique_ptr<E> fromBytes(const uint8_t *b, size_t n, bool u) { return bytes_to_q(b, n, u); } static std::unique_ptr<E> fromBytes(vector<uint8_t> b, bool u) { return bytes_to_q(b, u); } };
struct TP { typedef ElementModP E; enum { L = MAX_P_LEN, N = MAX_P_SIZE, B = 4096 }; static const uint64_t *mod() { return P_ARRAY_REVERSE; }
    static std::unique_ptr<E> fromBytes(const uint8_t *b, size_t n, bool u) { return bytes_to_p(b, n, u); } static std::unique_ptr<E> fromBytes(vector<uint8_t> b, bool u) { return bytes_to_p(b, u); } };
template <class T> static uN<T::B> val(const typename T::E &e) { return fromLimbs<T::B>(e.get()); }
template <class T> static bool below(uN<T::B> v) { return v < fromLimbs<T::B>(T::mod()); }
template <class T, class F> static int attempt(std::unique_ptr<typename T::E> &r, F f) { try { r = f(); return 0; } catch (const std::out_of_range &) { return 1; } catch (...) { return 2; } }
template <class T> static bool allowed(uN<T::B> v) { return v <= fromLimbs<T::B>(T::mod()); }
// a value with symbolic bytes; the number of leading zero bytes is chosen
template <class T> static uN<T::B> symValue(uint64_t (&l)[T::L], uint32_t &lead)
{
    uint64_t step = eg_def("step", 1), cnt = eg_def("window", T::N + 1), first = eg_def("first", 0);
    uint32_t k = eg_choice((uint32_t)cnt, "leading_zero_bytes");
    lead = (uint32_t)(first + k * step); if (lead > T::N) lead = T::N;
    uint8_t b[T::N] = {};
    if (lead < T::N) { eg_sym_bytes(b, T::N - lead, "value"); eg_assume(b[T::N - lead - 1] != 0); }
    memcpy(l, b, T::N); // little endian
    return fromLimbs<T::B>(l);
}
template <class T> static void hex()
{
    uint64_t l[T::L]; uint32_t lead;
    auto v = symValue<T>(l, lead);
    typename T::E e(l, true);
    string h = e.toHex();
    size_t n = lead == T::N ? 1 : T::N - lead;
    MUST(h.size() == 2 * n, "the hexadecimal form has two digits per significant byte");
    const uint8_t *b = (const uint8_t *)l;
    unsigned bad = 0;
    for (size_t i = 0; i < n; i++) {
        unsigned hi = b[n - 1 - i] >> 4, lo = b[n - 1 - i] & 15;
        bad |= (unsigned char)h[2 * i] ^ (hi + '0' + (hi > 9 ? 7 : 0));
        bad |= (unsigned char)h[2 * i + 1] ^ (lo + '0' + (lo > 9 ? 7 : 0));
    }
    MUST(bad == 0, "the hexadecimal form spells the value, most significant digit first");
    MUST(e.toHex() == h, "asking again gives the same text");
    string in = h;
    uint32_t form = eg_choice(3, "form");
    if (form == 1) in = "000" + h;
    if (form == 2) { if (lead < T::N && (b[n - 1] >> 4) == 0) in = h.substr(1); else in = h; }
    std::unique_ptr<typename T::E> r;
    int rc = attempt<T>(r, [&] { return T::E::fromHex(in, true); });
    MUST(rc == 0, "the hexadecimal form of every value can be read back");
    MUST(val<T>(*r) == v, "reading the hexadecimal form back gives the value");
    rc = attempt<T>(r, [&] { return T::E::fromHex(in); });
    MUST((rc == 0) == allowed<T>(v), "the checked hexadecimal constructor accepts exactly the values up to the modulus");
    if (rc == 0) MUST(val<T>(*r) == v, "reading the hexadecimal form back gives the value");
    eg_reach(rc == 0 ? 1 : 2);
}
ENTRY(h_q_hex) { hex<TQ>(); }
ENTRY(h_p_hex) { hex<TP>(); }
template <class T> static void lowerHex()
{
    // any digits, any case: the value is the number they spell
    uint32_t n = 1 + eg_choice((uint32_t)eg_def("digits", 5), "digits");
    char d[16]; uint64_t want = 0;
    for (uint32_t i = 0; i < n; i++) {
        eg_sym_bytes(d + i, 1, "digit"); unsigned char c = d[i];
        eg_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
        unsigned x = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
        want = want * 16 + x;
    }
    std::unique_ptr<typename T::E> r;
    int rc = attempt<T>(r, [&] { return T::E::fromHex(string(d, n)); });
    MUST(rc == 0, "every string of hexadecimal digits of a small number is accepted");
    MUST(val<T>(*r) == (uN<T::B>)want, "upper and lower case digits are read as the number they spell");
    eg_reach(1);
}
ENTRY(h_q_digits) { lowerHex<TQ>(); }
ENTRY(h_p_digits) { lowerHex<TP>(); }
template <class T> static void bytes()
{
    uint32_t n = eg_def("full", 1) ? eg_choice((uint32_t)T::N + 2, "length") : (uint32_t)(T::N + 1 - eg_choice(17, "length"));
    static uint8_t b[T::N + 1], rev[T::N];
    if (n) eg_sym_bytes(b, n, "bytes");
    bool vec = eg_choice(2, "as_vector"), unchecked = eg_choice(2, "unchecked");
    std::unique_ptr<typename T::E> r;
    int rc = attempt<T>(r, [&] { return vec ? T::fromBytes(vector<uint8_t>(b, b + n), unchecked) : T::fromBytes(b, n, unchecked); });
    if (n > T::N) { MUST(rc == 1, "too many bytes are refused"); eg_reach(2); return; }
    if (n == 0) { eg_reach(3); return; } // an empty string of bytes: either answer is fine
    memset(rev, 0, sizeof rev);
    for (uint32_t i = 0; i < n; i++) rev[i] = b[n - 1 - i];
    uN<T::B> v; memcpy(&v, rev, T::N);
    MUST((rc == 0) == (unchecked || allowed<T>(v)), "the checked constructor accepts exactly the values up to the modulus");
    if (rc) { MUST(rc == 1, "a value outside the range is reported as such"); return; }
    MUST(val<T>(*r) == v, "bytes are read as a big-endian number");
    auto out = r->toBytes();
    MUST(out.size() == T::N, "the byte form has fixed length");
    unsigned bad = 0;
    for (uint32_t i = 0; i < T::N; i++) bad |= out[i] ^ (i < T::N - n ? 0 : b[i - (T::N - n)]);
    MUST(bad == 0, "the byte form gives back the bytes");
    eg_reach(1);
}
ENTRY(h_q_bytes) { bytes<TQ>(); }
ENTRY(h_p_bytes) { bytes<TP>(); }
template <class T> static void limbs()
{
    uint64_t l[T::L]; eg_sym(l, sizeof l, "value");
    auto v = fromLimbs<T::B>(l);
    bool unchecked = eg_choice(2, "unchecked");
    std::unique_ptr<typename T::E> r;
    uint32_t how = eg_choice(4, "how");
    int rc;
    if (how == 0) rc = attempt<T>(r, [&] { return std::make_unique<typename T::E>(l, unchecked); });
    else {
        // vectors of limbs: full, one short, one too many
        size_t n = how == 1 ? T::L : how == 2 ? T::L - 1 : T::L + 1;
        vector<uint64_t> w(n, 0);
        for (size_t i = 0; i < n; i++) w[i] = i < T::L ? l[i] : 1;
        rc = attempt<T>(r, [&] { return std::make_unique<typename T::E>(w, unchecked); });
        if (n > T::L) { MUST(rc == 1, "a vector with too many limbs is refused"); eg_reach(2); return; }
        if (n < T::L) { l[T::L - 1] = 0; v = fromLimbs<T::B>(l); }
    }
    MUST((rc == 0) == (unchecked || allowed<T>(v)), "the checked constructor accepts exactly the values up to the modulus");
    if (rc) { MUST(rc == 1, "a value outside the range is reported as such"); return; }
    MUST(val<T>(*r) == v, "the element has the value it was made from");
    MUST(r->length() == T::L && r->get() == r->ref(), "length and storage agree");
    MUST(r->isInBounds() == (v != 0 && below<T>(v)), "in bounds means positive and below the modulus");
    eg_reach(1);
}
ENTRY(h_q_limbs) { limbs<TQ>(); }
ENTRY(h_p_limbs) { limbs<TP>(); }
template <class T> static void compare()
{
    uint64_t a[T::L], b[T::L]; eg_sym(a, sizeof a, "a"); eg_sym(b, sizeof b, "b");
    if (eg_def("sparse", 0)) for (unsigned i = 0; i < T::L; i++) if (i != 0 && i != 1 && i != T::L / 2 - 1 && i != T::L - 1) b[i] = a[i];
    typename T::E x(a, true), y(b, true);
    auto va = fromLimbs<T::B>(a), vb = fromLimbs<T::B>(b);
    MUST((x == y) == (va == vb) && (x != y) == (va != vb), "equality is equality of values");
    MUST((x < y) == (va < vb), "order is the order of values");
    MUST(val<T>(x) == va && val<T>(y) == vb, "comparison leaves its operands alone");
    typename T::E c(x);
    MUST(val<T>(c) == va, "a copy has the same value");
    c = y;
    MUST(val<T>(c) == vb && val<T>(x) == va && val<T>(y) == vb, "assignment copies the value");
    if (allowed<T>(va)) MUST(val<T>(*x.clone()) == va, "a clone has the same value");
    eg_reach(1);
}
ENTRY(h_q_compare) { compare<TQ>(); }
ENTRY(h_p_compare) { compare<TP>(); }
ENTRY(h_u64)
{
    uint64_t v; eg_sym(&v, 8, "v");
    MUST(val<TQ>(*ElementModQ::fromUint64(v)) == (u256)v && val<TQ>(*ElementModQ::fromUint64(v, true)) == (u256)v, "an exponent made from an integer has that value");
    MUST(val<TP>(*ElementModP::fromUint64(v)) == (u4096)v && val<TP>(*ElementModP::fromUint64(v, true)) == (u4096)v, "an element made from an integer has that value");
    QL4 l; eg_sym(l, sizeof l, "q");
    ElementModQ q(l, true);
    MUST(val<TP>(*q.toElementModP()) == (u4096)fromLimbs<256>(l), "an exponent converted to an element keeps its value");
    eg_reach(1);
}
