// Bodies of the non-header parts of libstdc++/libc that the library under test links against, so that they can be
// executed symbolically together with it.  Compiled with -fno-access-control.
// Nothing here is electionguard code; every function implements the documented behaviour of the function it replaces.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <clocale>
#include <ctime>
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <sstream>
#include <iomanip>
#include <map>
#include <unordered_map>
#include <functional>
#include <system_error>
#include <locale>
#include <list>
#include <mutex>
#include "egrt.h"

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
const nothrow_t nothrow{};

// __cow_string is an opaque pointer-sized class in <stdexcept>
static char *dupz(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static char *&slot(__cow_string &c) { return *reinterpret_cast<char **>(&c); }
static char *const &slot(const __cow_string &c) { return *reinterpret_cast<char *const *>(&c); }
__cow_string::__cow_string() { slot(*this) = dupz("", 0); }
__cow_string::__cow_string(const std::string &s) { slot(*this) = dupz(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { slot(*this) = dupz(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { slot(*this) = dupz(slot(o), strlen(slot(o))); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free(slot(*this)); slot(*this) = dupz(slot(o), strlen(slot(o))); } return *this; }
__cow_string::~__cow_string() { free(slot(*this)); }
__cow_string::__cow_string(__cow_string &&o) noexcept { slot(*this) = dupz(slot(o), strlen(slot(o))); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return slot(_M_msg); }
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return slot(_M_msg); }
#define EXC(T, B) T::T(const std::string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
error_category::~error_category() noexcept {}
string_view dummy_unused_view() { return {}; }
struct EgCat : error_category {
    const char *name() const noexcept override { return "generic"; }
    std::string message(int) const override { return "error"; }
};
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
static EgCat egcat;
namespace _V2 { const error_category &system_category() noexcept { return egcat; } const error_category &generic_category() noexcept { return egcat; } }
system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int i) { throw runtime_error("system_error"); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }

// ------------------------------------------------------------------ associative containers
#define RB _Rb_tree_node_base
RB *_Rb_tree_increment(RB *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    RB *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const RB *_Rb_tree_increment(const RB *x) throw() { return _Rb_tree_increment(const_cast<RB *>(x)); }
RB *_Rb_tree_decrement(RB *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { RB *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    RB *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const RB *_Rb_tree_decrement(const RB *x) throw() { return _Rb_tree_decrement(const_cast<RB *>(x)); }
// An unbalanced binary search tree has the same observable iteration order and contents.
void _Rb_tree_insert_and_rebalance(const bool left, RB *x, RB *p, RB &h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    h._M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
RB *_Rb_tree_rebalance_for_erase(RB *const z, RB &h) throw() {
    auto replace = [&](RB *u, RB *v) {
        if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent;
    };
    RB *next = (h._M_left == z) ? _Rb_tree_increment(z) : nullptr, *prev = (h._M_right == z) ? _Rb_tree_decrement(z) : nullptr;
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        RB *y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    else { if (next) h._M_left = next; if (prev) h._M_right = prev; }
    return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
    for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (size_t)1); return p; }
    _M_next_resize = n | 1; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) {
        size_t m = elt + ins; if (m < 11 && !_M_next_resize) m = 11;
        if (m >= bkt) { size_t want = m + 1 > bkt * 2 ? m + 1 : bkt * 2; return {true, _M_next_bkt(want)}; }
        _M_next_resize = bkt; return {false, 0};
    }
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    const unsigned char *c = (const unsigned char *)p; size_t h = seed ^ 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
namespace __cxx11 {}
void __libcpp_dummy() {}
}

// ------------------------------------------------------------------ strings and streams
static std::ctype<char> *theCtype() {
    static char buf[sizeof(std::ctype<char>)] __attribute__((aligned(16)));
    auto *c = reinterpret_cast<std::ctype<char> *>(buf);
    if (!c->_M_widen_ok) { for (int i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; } c->_M_widen_ok = 1; c->_M_narrow_ok = 1; }
    return c;
}
// The facets of the C locale that are looked up through a locale: the decimal point, and time input, whose members are not modelled.
static char decimalPoint(void *) { return '.'; }
static void noFacet(void *) { eg_fail("unmodelled facet of a locale"); }
static void *const punctTable[] = {(void *)noFacet, (void *)noFacet, (void *)decimalPoint, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet};
static void *const otherTable[] = {(void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet, (void *)noFacet};
static const void *const punct[8] = {punctTable}, *const other[8] = {otherTable};
static const std::locale::facet *const facets[] = {(const std::locale::facet *)other, (const std::locale::facet *)punct};
static char localeImpl[sizeof(std::locale::_Impl)] __attribute__((aligned(16)));
static std::locale::_Impl *theLocale() { auto *i = reinterpret_cast<std::locale::_Impl *>(localeImpl); if (i->_M_facets_size) return i; i->_M_facets = const_cast<const std::locale::facet **>(facets); i->_M_facets_size = 2; return i; }
namespace std {
template <> locale::id numpunct<char>::id{};
template <> locale::id time_get<char>::id{};
locale::locale() noexcept : _M_impl(theLocale()) {}
locale::locale(const locale &) noexcept : _M_impl(theLocale()) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
static locale clsc;
const locale &locale::classic() { return clsc; }
size_t locale::id::_M_id() const noexcept { return this == &numpunct<char>::id ? 1 : 0; }
locale::facet::~facet() {}
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base_library_init() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = theCtype(); _M_num_put = nullptr; _M_num_get = nullptr; }
template <> locale basic_ios<char>::imbue(const locale &) { return locale(); }
template <> void basic_ios<char>::clear(iostate s) { if (this->rdbuf()) _M_streambuf_state = s; else _M_streambuf_state = s | badbit; if (exceptions() & rdstate()) __throw_ios_failure("basic_ios::clear"); }

// formatted integer output; `neg` tells whether to print a minus sign (decimal only)
static void putInt(ostream &os, unsigned long v, bool neg, bool isSigned) {
    ios_base::fmtflags f = os.flags(); long w = os.width(); os.width(0); char fill = os.fill();
    char tmp[72]; int n = 0; auto base = f & ios_base::basefield;
    unsigned shift = base == ios_base::hex ? 4 : base == ios_base::oct ? 3 : 0;
    const char *digits = (f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
    bool right = (f & ios_base::adjustfield) != ios_base::left;
    if (shift && fill == '0' && right && w > 0 && !(f & ios_base::showbase) && eg_is_sym(v) && (long)(shift * w) < 64 && eg_must((v >> (shift * w)) == 0)) {
        // zero padded to at least w digits and known to fit: exactly w digits, no case split needed
        for (long i = w; i-- > 0;) { unsigned d = (v >> (shift * i)) & ((1u << shift) - 1); tmp[n++] = (char)(d + '0' + (d > 9 ? ((f & ios_base::uppercase) ? 7 : 39) : 0)); }
        os.rdbuf()->sputn(tmp, n); return;
    }
    char rev[72]; int m = 0;
    if (shift) { do { rev[m++] = digits[v & ((1u << shift) - 1)]; v >>= shift; } while (v); }
    else { do { rev[m++] = (char)('0' + v % 10); v /= 10; } while (v); }
    if (f & ios_base::showbase) { if (shift == 4) { rev[m++] = (f & ios_base::uppercase) ? 'X' : 'x'; rev[m++] = '0'; } else if (shift == 3) rev[m++] = '0'; }
    if (!shift && neg) rev[m++] = '-'; else if (!shift && isSigned && (f & ios_base::showpos)) rev[m++] = '+';
    while (m) tmp[n++] = rev[--m];
    if (right) for (long i = n; i < w; i++) os.rdbuf()->sputc(fill);
    os.rdbuf()->sputn(tmp, n);
    if (!right) for (long i = n; i < w; i++) os.rdbuf()->sputc(fill);
}
static bool decimal(ostream &os) { auto b = os.flags() & ios_base::basefield; return b != ios_base::hex && b != ios_base::oct; }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { putInt(*this, v, false, false); return *this; }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { putInt(*this, v, false, false); return *this; }
template <> template <> ostream &ostream::_M_insert(long v) { bool neg = v < 0 && decimal(*this); putInt(*this, neg ? 0ul - (unsigned long)v : (unsigned long)v, neg, true); return *this; }
template <> template <> ostream &ostream::_M_insert(long long v) { return this->_M_insert((long)v); }
template <> template <> ostream &ostream::_M_insert(bool v) { if (flags() & ios_base::boolalpha) { const char *s = v ? "true" : "false"; rdbuf()->sputn(s, v ? 4 : 5); } else putInt(*this, v, false, false); return *this; }
template <> ostream &ostream::operator<<(short v) { bool hex = !decimal(*this); return hex ? this->_M_insert((unsigned long)(unsigned short)v) : this->_M_insert((long)v); }
template <> ostream &ostream::operator<<(int v) { bool hex = !decimal(*this); return hex ? this->_M_insert((unsigned long)(unsigned)v) : this->_M_insert((long)v); }
template <> ostream &ostream::flush() { return *this; }
template <> ostream &ostream::put(char c) { rdbuf()->sputc(c); return *this; }
template <> ostream::sentry::sentry(ostream &os) : _M_ok(os.good()), _M_os(os) {}
template <> ostream::sentry::~sentry() {}
template <> ostream &__ostream_insert(ostream &os, const char *s, streamsize n) {
    long w = os.width(); os.width(0); bool left = (os.flags() & ios_base::adjustfield) == ios_base::left;
    if (!left) for (long i = n; i < w; i++) os.rdbuf()->sputc(os.fill());
    os.rdbuf()->sputn(s, n);
    if (left) for (long i = n; i < w; i++) os.rdbuf()->sputc(os.fill());
    return os;
}
template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_stringbuf<char>;
template <> ostream &ostream::operator<<(double) { eg_fail("floating point output is not modelled"); return *this; }
// members that are templates the library does not instantiate itself
template ostream &ostream::operator<<(ostream &(*)(ostream &));
template ostream &ostream::operator<<(ios_base &(*)(ios_base &));
template ostream &ostream::operator<<(basic_ios<char> &(*)(basic_ios<char> &));
template ostream &ostream::operator<<(bool);
template ostream &ostream::operator<<(unsigned short);
template ostream &ostream::operator<<(unsigned int);
template ostream &ostream::operator<<(long);
template ostream &ostream::operator<<(unsigned long);
template ostream &ostream::operator<<(long long);
template ostream &ostream::operator<<(unsigned long long);
template ostream &endl(ostream &);
template ostream &ends(ostream &);
template ostream &flush(ostream &);
#define M(T) template ostream &operator<< <char, char_traits<char>>(ostream &, T);
M(_Setfill<char>) M(_Setw) M(_Setprecision) M(_Setbase) M(_Setiosflags) M(_Resetiosflags)
#undef M
#define M(T) template ostream &operator<< <char_traits<char>>(ostream &, T);
M(char) M(signed char) M(unsigned char) M(const char *) M(const signed char *) M(const unsigned char *)
#undef M
template ostream &operator<< <char, char_traits<char>, allocator<char>>(ostream &, const string &);
// virtual tables of the string streams
template ostream::basic_ostream(streambuf *);
template basic_ostream<char>::~basic_ostream();
template <> istream::sentry::sentry(istream &is, bool) : _M_ok(is.good()) {}
template istream::int_type istream::peek();
template istream::int_type istream::get();
template istream &istream::get(char &);
template istream &istream::unget();
template istream &istream::putback(char);
template istream &istream::read(char *, streamsize);
template istream &istream::operator>>(istream &(*)(istream &));
template istream &istream::operator>>(ios_base &(*)(ios_base &));
template istream &ws(istream &);
template basic_istream<char>::~basic_istream();
template basic_iostream<char>::~basic_iostream();
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
// time output in the C locale; %c is only used to personalise the random generator, where any text is allowed
static void putNum(string &o, long v, int w, char pad = '0') { char t[24]; int n = 0; bool neg = v < 0; if (neg) v = -v; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n < w) t[n++] = pad; if (neg) t[n++] = '-'; while (n) o += t[--n]; }
static void putDigits(string &o, int v, int w) { int p = 1; for (int i = 1; i < w; i++) p *= 10; for (; p; p /= 10) o += (char)('0' + v / p % 10); }   // known to fit: no case split
template <> ostream &operator<<(ostream &os, _Put_time<char> pt) {
    const tm *t = pt._M_tmb; const char *f = pt._M_fmt, *e = f + strlen(f);
    static const char *const wd[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
    static const char *const mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    string o;
    auto year = [&]() { long y = t->tm_year + 1900l; if (y >= 1000 && y <= 9999) putDigits(o, (int)y, 4); else putNum(o, y, 1); };
    for (; f != e; ++f) {
        if (*f != '%') { o += *f; continue; }
        ++f; while (*f == 'E' || *f == 'O') ++f;
        switch (*f) {
        case 'c': o += "TIME"; break;
        case 'Y': year(); break;
        case 'C': putNum(o, (t->tm_year + 1900) / 100, 2); break;
        case 'y': putDigits(o, (t->tm_year % 100 + 100) % 100, 2); break;
        case 'm': putDigits(o, t->tm_mon + 1, 2); break;
        case 'd': putDigits(o, t->tm_mday, 2); break;
        case 'e': putNum(o, t->tm_mday, 2, ' '); break;
        case 'H': putDigits(o, t->tm_hour, 2); break;
        case 'I': putDigits(o, (t->tm_hour + 11) % 12 + 1, 2); break;
        case 'M': putDigits(o, t->tm_min, 2); break;
        case 'S': putDigits(o, t->tm_sec, 2); break;
        case 'j': putDigits(o, t->tm_yday + 1, 3); break;
        case 'w': putDigits(o, t->tm_wday, 1); break;
        case 'u': putDigits(o, (t->tm_wday + 6) % 7 + 1, 1); break;
        case 'p': o += t->tm_hour < 12 ? "AM" : "PM"; break;
        case 'A': o += wd[t->tm_wday]; break;
        case 'a': o += string(wd[t->tm_wday], 3); break;
        case 'B': o += mn[t->tm_mon]; break;
        case 'b': case 'h': o += string(mn[t->tm_mon], 3); break;
        case 'F': year(); o += '-'; putDigits(o, t->tm_mon + 1, 2); o += '-'; putDigits(o, t->tm_mday, 2); break;
        case 'D': case 'x': putDigits(o, t->tm_mon + 1, 2); o += '/'; putDigits(o, t->tm_mday, 2); o += '/'; putDigits(o, (t->tm_year % 100 + 100) % 100, 2); break;
        case 'T': case 'X': putDigits(o, t->tm_hour, 2); o += ':'; putDigits(o, t->tm_min, 2); o += ':'; putDigits(o, t->tm_sec, 2); break;
        case 'R': putDigits(o, t->tm_hour, 2); o += ':'; putDigits(o, t->tm_min, 2); break;
        case 'z': o += "+0000"; break;
        case 'Z': o += "GMT"; break;
        case 'n': o += '\n'; break;
        case 't': o += '\t'; break;
        case '%': o += '%'; break;
        default: eg_fail("unmodelled time format");
        }
    }
    os.rdbuf()->sputn(o.data(), (long)o.size());
    return os;
}

_Atomic_word dummyaw;
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) {} }
}

