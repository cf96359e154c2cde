// Term layer: F_q elements as canonical multivariate polynomials, P-group elements as g^poly.
// Every term has a concrete "token" (its limbs) so that encodings, copies and hashes of it run as
// ordinary concrete code; tokens map back to terms.
#pragma once
#include <cstdint>
#include <functional>
#include <gmpxx.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using Mono = std::vector<std::pair<int, int>>; // (var, power), sorted by var
struct Poly {
    std::map<Mono, mpz_class> t; // coefficients in [1,q)
    bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    mpz_class constant() const { auto f = t.find({}); return f == t.end() ? mpz_class(0) : f->second; }
    bool operator==(const Poly &o) const { return t == o.t; }
};
struct PElem { bool zero = false; Poly e; };

extern mpz_class QQ;
int termVar(const std::string &name);
const std::string &termVarName(int v);
Poly pConst(const mpz_class &c);
Poly pVar(const std::string &name);
Poly pAdd(const Poly &a, const Poly &b);
Poly pSub(const Poly &a, const Poly &b);
Poly pMul(const Poly &a, const Poly &b);
Poly pScale(const Poly &a, const mpz_class &c);
std::string pStr(const Poly &p);
std::vector<uint64_t> tokenQ(const Poly &p);          // 4 limbs
std::vector<uint64_t> tokenP(const PElem &p);         // 64 limbs
Poly fromTokenQ(const std::vector<uint64_t> &l);      // applies substitutions
PElem fromTokenP(const std::vector<uint64_t> &l);
bool isKnownTokenQ(const std::vector<uint64_t> &l);
bool isKnownTokenP(const std::vector<uint64_t> &l);
void registerG(const std::vector<uint64_t> &l);
void registerTokenQ(const std::vector<uint64_t> &l, const Poly &p);
Poly pSubst(const Poly &p);
// decide poly == 0.  ask(question) is called for undecided atoms and must return the branch taken.
bool pDecideZero(const Poly &p, bool atoms, const std::function<bool(const std::string &)> &ask);
void hash256(const std::string &s, uint64_t out[4]);
extern std::vector<std::pair<std::string, bool>> gAtoms; // decided atoms of this path
extern std::map<std::string, std::string> gSubstStr;
extern bool gTermsInfeasible; // an equality assumed on this path contradicts an earlier inequality
extern uint64_t gPolyIdentities; // identities decided by normal form
std::vector<std::string> termVarNames();
