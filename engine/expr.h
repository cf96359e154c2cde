// Symbolic bit-vector expressions: hash-consed DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <array>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>

enum class K : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat,  // kids[0] = high part, kids[1] = low part
    Extract, // lo offset
    ZExt, SExt,
    Eq, Ult, Slt, Ule, Sle,
    Ite,
};

struct Expr {
    K k;
    unsigned w;
    unsigned lo = 0; // Extract
    unsigned id = 0;
    uint64_t h = 0;
    std::vector<const Expr *> kids;
    llvm::APInt val; // Const
    std::string name; // Var
    const Expr *v1 = nullptr; // the only variable below, if there is exactly one and it has at most 8 bits
    bool multi = false;       // any other variables below
    const uint64_t *tab = nullptr; // value for every value of v1 (width at most 64)
    bool isConst() const { return k == K::Const; }
};
using E = const Expr *;
using llvm::APInt;

E mkConst(const APInt &v);
E mkConst(unsigned w, uint64_t v);
E mkVar(unsigned w, const std::string &name);
E mkBin(K k, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkEq(E a, E b);
E mkCmp(K k, E a, E b);
E mkNot(E a); // 1-bit
E mkIte(E c, E t, E f);
E mkAnd1(E a, E b);
E mkOr1(E a, E b);
inline E mkBool(bool b) { return mkConst(1, b); }
inline bool isTrue(E e) { return e->isConst() && !e->val.isZero(); }
inline bool isFalse(E e) { return e->isConst() && e->val.isZero(); }
std::string exprStr(E e, int depth = 6);
void collectVars(E e, std::map<std::string, E> &out);
const std::vector<unsigned> &varIds(E e); // sorted ids of Var nodes below e
APInt evalExpr(E e, const std::unordered_map<E, APInt> &model, std::unordered_map<E, APInt> &memo);
size_t exprCount();
E byId(unsigned id);

// ---- solver
enum class Sat { sat, unsat, unknown };
struct Model { std::unordered_map<E, APInt> vals; };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; uint64_t cached = 0, lia = 0, table = 0; };
extern SolverStats gSolver;
// Is  conj(cs)  satisfiable?
// can two accesses overlap in time? last[t]: number of synchronisation events of thread t; before: (t, k) precedes (t2, k2);
// pairs: (t, epoch, t2, epoch2). Index of a pair that can, -1 none, -2 no answer.
int solveOrder(const std::vector<int> &last, const std::vector<std::array<int, 4>> &before, const std::vector<std::array<int, 4>> &pairs);
Sat solve(const std::vector<E> &cs, Model *m, bool heavy);
// integer (LIA) back end: is conj(cs) satisfiable when each BV expr is read as an integer
void solverReset();
