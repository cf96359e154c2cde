#include "terms.h"
#include <algorithm>
#include <cstring>
#include <unordered_map>

mpz_class QQ = [] { mpz_class q = 1; q <<= 256; q -= 189; return q; }();
static std::vector<std::string> names;
static std::unordered_map<std::string, int> nameIdx;
std::vector<std::pair<std::string, bool>> gAtoms;
std::map<std::string, std::string> gSubstStr;
uint64_t gPolyIdentities = 0;
static std::map<int, Poly> subst;

int termVar(const std::string &n) {
    auto f = nameIdx.find(n);
    if (f != nameIdx.end()) return f->second;
    int i = names.size(); names.push_back(n); nameIdx[n] = i; return i;
}
const std::string &termVarName(int v) { return names[v]; }
std::vector<std::string> termVarNames() { return names; }
static void norm(mpz_class &c) { mpz_mod(c.get_mpz_t(), c.get_mpz_t(), QQ.get_mpz_t()); }
Poly pConst(const mpz_class &c0) { Poly p; mpz_class c = c0; norm(c); if (c != 0) p.t[{}] = c; return p; }
Poly pVar(const std::string &n) { Poly p; p.t[{{termVar(n), 1}}] = 1; return p; }
static void addTo(Poly &r, const Mono &m, const mpz_class &c) {
    auto &x = r.t[m]; x += c; norm(x); if (x == 0) r.t.erase(m);
}
Poly pAdd(const Poly &a, const Poly &b) { Poly r = a; for (auto &k : b.t) addTo(r, k.first, k.second); return r; }
Poly pScale(const Poly &a, const mpz_class &c) { Poly r; for (auto &k : a.t) { mpz_class x = k.second * c; norm(x); if (x != 0) r.t[k.first] = x; } return r; }
Poly pSub(const Poly &a, const Poly &b) { Poly r = a; for (auto &k : b.t) addTo(r, k.first, -k.second); return r; }
static Mono mm(const Mono &a, const Mono &b) {
    Mono r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
    }
    return r;
}
Poly pMul(const Poly &a, const Poly &b) { Poly r; for (auto &x : a.t) for (auto &y : b.t) addTo(r, mm(x.first, y.first), x.second * y.second); return r; }
std::string pStr(const Poly &p) {
    if (p.t.empty()) return "0";
    std::vector<std::string> parts; // by name for determinism
    for (auto &k : p.t) {
        std::vector<std::string> f;
        for (auto &v : k.first) f.push_back(names[v.first] + (v.second > 1 ? "^" + std::to_string(v.second) : ""));
        std::sort(f.begin(), f.end());
        std::string s;
        mpz_class neg = QQ - k.second;
        std::string c = neg < 1000000 ? "-" + neg.get_str() : (k.second < 1000000 ? k.second.get_str() : "0x" + k.second.get_str(16));
        for (auto &x : f) s += (s.empty() ? "" : "*") + x;
        if (s.empty()) s = c; else if (c != "1") s = c + "*" + s;
        parts.push_back(s);
    }
    std::sort(parts.begin(), parts.end());
    std::string r; for (auto &x : parts) r += (r.empty() ? "" : " + ") + x;
    return r;
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
void hash256(const std::string &s, uint64_t out[4]) {
    uint64_t st[4] = {0x243F6A8885A308D3ULL, 0x13198A2E03707344ULL, 0xA4093822299F31D0ULL, 0x082EFA98EC4E6C89ULL};
    auto round = [&](uint64_t v) {
        st[0] ^= v;
        for (int i = 0; i < 4; i++) { uint64_t &a = st[i], &b = st[(i + 1) & 3]; a = (a ^ (a >> 31)) * 0x9E3779B97F4A7C15ULL; b += rotl(a, 17 + i); b = (b ^ (b >> 29)) * 0xBF58476D1CE4E5B9ULL; }
    };
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) { uint64_t v; memcpy(&v, s.data() + i, 8); round(v); }
    uint64_t v = 0; memcpy(&v, s.data() + i, s.size() - i); round(v); round(s.size() + 0x100000000ULL);
    for (int k = 0; k < 6; k++) round(0x5555 + k);
    memcpy(out, st, 32);
}
static std::map<std::vector<uint64_t>, Poly> tokQ;
static std::map<std::vector<uint64_t>, PElem> tokP;
static std::vector<uint64_t> gLimbs;
static std::vector<uint64_t> toLimbs(const mpz_class &c, int n) { std::vector<uint64_t> l(n, 0); size_t cnt; mpz_export(l.data(), &cnt, -1, 8, 0, 0, c.get_mpz_t()); return l; }
static mpz_class fromLimbs(const std::vector<uint64_t> &l) { mpz_class r; mpz_import(r.get_mpz_t(), l.size(), -1, 8, 0, 0, l.data()); return r; }
std::vector<uint64_t> tokenQ(const Poly &p) {
    if (p.isConst()) return toLimbs(p.constant(), 4);
    uint64_t h[4]; hash256("Q:" + pStr(p), h);
    std::vector<uint64_t> l(h, h + 4);
    for (auto &x : l) x |= 0x0100000000000000ULL; // no leading zero bytes in a limb
    l[3] = (l[3] & 0x00ffffffffffffffULL) | 0xE700000000000000ULL;
    auto f = tokQ.find(l);
    if (f == tokQ.end()) tokQ.emplace(l, p);
    return l;
}
void registerTokenQ(const std::vector<uint64_t> &l, const Poly &p) { tokQ[l] = p; }
bool isKnownTokenQ(const std::vector<uint64_t> &l) { return tokQ.count(l); }
bool isKnownTokenP(const std::vector<uint64_t> &l) { return tokP.count(l) || l == gLimbs; }
std::vector<uint64_t> tokenP(const PElem &p) {
    if (p.zero) return std::vector<uint64_t>(64, 0);
    if (p.e.t.empty()) { std::vector<uint64_t> l(64, 0); l[0] = 1; return l; }
    if (p.e.isConst() && p.e.constant() == 1 && !gLimbs.empty()) return gLimbs;
    std::string s = pStr(p.e);
    if (p.e.t.size() == 1) { // opaque constants keep their own limbs
        auto &m = *p.e.t.begin();
        if (m.second == 1 && m.first.size() == 1 && m.first[0].second == 1 && names[m.first[0].first].rfind("dlog:", 0) == 0) {
            mpz_class v(names[m.first[0].first].substr(5), 16); return toLimbs(v, 64);
        }
    }
    std::vector<uint64_t> l;
    for (int i = 0; i < 16; i++) { uint64_t h[4]; hash256("P" + std::to_string(i) + ":" + s, h); l.insert(l.end(), h, h + 4); }
    for (auto &x : l) x |= 0x0100000000000000ULL;
    l[63] = (l[63] & 0x00ffffffffffffffULL) | 0xE900000000000000ULL;
    auto f = tokP.find(l);
    if (f == tokP.end()) tokP.emplace(l, p);
    return l;
}
void registerG(const std::vector<uint64_t> &l) { gLimbs = l; }
Poly pSubst(const Poly &p) {
    if (subst.empty()) return p;
    Poly cur = p;
    for (int iter = 0; iter < 64; iter++) {
        bool any = false;
        Poly r;
        for (auto &k : cur.t) {
            Poly term = pConst(k.second); bool hit = false;
            for (auto &v : k.first) {
                auto f = subst.find(v.first);
                Poly b; if (f != subst.end()) { b = f->second; hit = true; } else b.t[{{v.first, 1}}] = 1;
                for (int i = 0; i < v.second; i++) term = pMul(term, b);
            }
            if (hit) any = true;
            r = pAdd(r, term);
        }
        cur = r;
        if (!any) break;
    }
    return cur;
}
Poly fromTokenQ(const std::vector<uint64_t> &l) {
    auto f = tokQ.find(l);
    if (f != tokQ.end()) return pSubst(f->second);
    return pConst(fromLimbs(l));
}
PElem fromTokenP(const std::vector<uint64_t> &l) {
    auto f = tokP.find(l);
    if (f != tokP.end()) { PElem p = f->second; p.e = pSubst(p.e); return p; }
    if (l == gLimbs) { PElem p; p.e = pConst(1); return p; }
    mpz_class v = fromLimbs(l);
    PElem p;
    if (v == 0) { p.zero = true; return p; }
    if (v == 1) return p;
    p.e = pVar("dlog:" + v.get_str(16));
    return p;
}
static std::map<std::string, bool> decided;
static std::vector<Poly> nonZero; // polynomials this path assumes to differ from 0
bool gTermsInfeasible = false;
bool pDecideZero(const Poly &p0, bool atoms, const std::function<bool(const std::string &)> &ask) {
    Poly p = pSubst(p0);
    if (p.t.empty()) { gPolyIdentities++; return true; }
    if (p.isConst()) { gPolyIdentities++; return false; }
    // normalise the leading coefficient to 1
    mpz_class inv; mpz_invert(inv.get_mpz_t(), p.t.begin()->second.get_mpz_t(), QQ.get_mpz_t());
    p = pScale(p, inv);
    std::string s = pStr(p);
    auto f = decided.find(s);
    if (f != decided.end()) return f->second;
    if (!atoms) { gPolyIdentities++; decided[s] = false; return false; }
    bool r = ask(s);
    decided[s] = r;
    gAtoms.push_back({s, r});
    if (r) { // eliminate a variable that occurs only linearly with a constant coefficient
        int best = -1; mpz_class bc;
        for (auto &k : p.t) if (k.first.size() == 1 && k.first[0].second == 1) {
            int v = k.first[0].first; bool elsewhere = false;
            for (auto &k2 : p.t) if (&k2 != &k) for (auto &x : k2.first) if (x.first == v) elsewhere = true;
            if (elsewhere) continue;
            // the latest variable that is a free input: those introduced last are least likely to be hashed
            auto rank = [](int v) { auto &n = names[v]; return n.rfind("H:", 0) == 0 ? 0 : n.rfind("dlog:", 0) == 0 || n.rfind("byte#", 0) == 0 || n.rfind("int(", 0) == 0 ? 1 : 2; };
            if (best < 0 || rank(v) > rank(best) || (rank(v) == rank(best) && v > best)) { best = v; bc = k.second; }
        }
        if (best >= 0) {
            Poly lin; lin.t[{{best, 1}}] = bc;
            Poly rest = pSub(p, lin);
            mpz_class bi; mpz_invert(bi.get_mpz_t(), bc.get_mpz_t(), QQ.get_mpz_t());
            subst[best] = pScale(rest, QQ - bi);
            gSubstStr[names[best]] = pStr(subst[best]);
            for (auto &z : nonZero) if (pSubst(z).t.empty()) gTermsInfeasible = true;
        }
    } else nonZero.push_back(p);
    return r;
}
