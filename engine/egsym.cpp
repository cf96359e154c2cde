// egsym: bounded symbolic executor for LLVM IR produced from the real sources.
// States fork with fork(2); path conditions are bit-vector formulas decided by Z3.
#include "expr.h"
#include "terms.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <llvm/ADT/APSInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <semaphore.h>
#include <array>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef unsigned __int128 u128;

// ------------------------------------------------------------------ shared statistics
struct Shared {
    std::atomic<long> paths, pathsDone, pathsCut, forks, insts, calls, asserts, assertsConcrete, assertsSolver, violations, errors, stop;
    std::atomic<long> queries, sat, unsat, unknown, cached, lia, table, polyIds, hashCalls;
    std::atomic<long> solverUs, live, memChecks, atomsAsked;
    std::atomic<long> reach[64];
    sem_t slots;
};
static Shared *SH;
static uint8_t *fnHit; // shared, per function index
static const Module *gM;
static const DataLayout *DL;

// ------------------------------------------------------------------ options
static std::string optEntry, optOut, optModule;
static std::map<std::string, std::string> optDefs;
static long optMaxInsts = 4000000000000L, optMaxPaths = 200000, optJobs = 8;
static double optTimeout = 800;
static bool optTrace = false, optAtoms = false, optKeepGoing = false;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

// ------------------------------------------------------------------ values
struct Val {
    uint64_t c = 0;
    E e = nullptr;                 // symbolic scalar, or any scalar wider than 64 bits
    std::vector<Val> *agg = nullptr;
};
static inline Val VC(uint64_t c) { Val v; v.c = c; return v; }
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline Val VE(E e) {
    Val v;
    if (e->w <= 64 && e->isConst()) v.c = e->val.getZExtValue();
    else v.e = e;
    return v;
}
static inline E toE(const Val &v, unsigned w) {
    if (v.e) return v.e;
    return mkConst(w, v.c & maskw(w));
}
static inline bool isSym(const Val &v) { return v.e && !v.e->isConst(); }

// ------------------------------------------------------------------ memory
struct Obj {
    uint64_t size = 0;
    uint8_t *data = nullptr;
    E *sym = nullptr;
    uint8_t kind = 0; // 0 free, 1 heap, 2 stack, 3 global, 4 freed-heap
    bool ro = false, tls = false;
    uint8_t alloc = 0; // 0 malloc, 1 new, 2 new[]
    std::string *name = nullptr;
};
static std::vector<Obj> objs;
static std::vector<uint32_t> freeStack;
static std::deque<uint32_t> quarantine;
static const uint64_t FNBASE = 0x7f00000000000000ULL;

[[noreturn]] static void finishPath(int code);
[[noreturn]] static void internalError(const char *fmt, ...);
[[noreturn]] static void violation(const std::string &kind, const std::string &msg, Model *m = nullptr, E cond = nullptr);

static uint64_t allocObj(uint64_t size, uint8_t kind, const char *name = nullptr) {
    uint32_t id;
    if (kind == 2 && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); }
    else if (kind == 1 && quarantine.size() > 50000) { id = quarantine.front(); quarantine.pop_front(); }
    else { id = objs.size(); objs.emplace_back(); }
    if (size > (1ULL << 31)) internalError("allocation of %lu bytes", size);
    Obj &o = objs[id];
    o.size = size; o.kind = kind; o.ro = false;
    o.data = (uint8_t *)calloc(1, size ? size : 1);
    o.sym = nullptr;
    if (name) o.name = new std::string(name);
    return ((uint64_t)id << 32);
}
static void releaseObj(uint32_t id) {
    Obj &o = objs[id];
    free(o.data); free(o.sym);
    o.data = nullptr; o.sym = nullptr;
    if (o.kind == 2) { o.kind = 0; freeStack.push_back(id); }
    else { o.kind = 4; quarantine.push_back(id); }
}

// ------------------------------------------------------------------ path condition
static std::vector<E> pc;
static std::vector<Model> models; // recent models of (parts of) pc, used as a quick satisfiability cache
static std::vector<std::pair<std::string, std::vector<E>>> inputs; // named symbolic inputs (bytes, in order)
static std::vector<std::string> notes;

static std::vector<E> slice(E cond) { // constraints that (transitively) share variables with cond
    std::vector<unsigned> vs = varIds(cond);
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
            auto &o = varIds(pc[i]);
            bool hit = false;
            size_t a = 0, b = 0;
            while (a < vs.size() && b < o.size()) { if (vs[a] == o[b]) { hit = true; break; } if (vs[a] < o[b]) a++; else b++; }
            if (hit) { in[i] = 1; ch = true; std::vector<unsigned> r; std::set_union(vs.begin(), vs.end(), o.begin(), o.end(), std::back_inserter(r)); vs.swap(r); }
        }
    }
    std::vector<E> r;
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
    return r;
}
static void remember(const Model &mm) { // the newest model, completed with the values the last one gave to other variables
    Model n = models.empty() ? Model() : models.front();
    for (auto &kv : mm.vals) n.vals[kv.first] = kv.second;
    models.insert(models.begin(), n); if (models.size() > 6) models.pop_back();
}
static bool maySat(E cond, Model *m = nullptr) {
    if (isTrue(cond)) return true;
    if (isFalse(cond)) return false;
    auto cs = slice(cond);
    if (!m)
        for (auto &md : models) {
            std::unordered_map<E, APInt> memo; bool ok = !evalExpr(cond, md.vals, memo).isZero();
            for (size_t i = 0; ok && i < cs.size(); i++) ok = !evalExpr(cs[i], md.vals, memo).isZero();
            if (ok) return true;
        }
    cs.push_back(cond);
    Model mm;
    Sat r = solve(cs, &mm, false);
    if (r == Sat::unknown) internalError("solver returned unknown");
    if (r == Sat::sat) { remember(mm); if (m) *m = mm; }
    return r == Sat::sat;
}
static Model fullModel(E extra) { // a model of the whole path condition
    std::vector<E> cs = pc; if (extra) cs.push_back(extra);
    Model m;
    Sat r = solve(cs, &m, false);
    if (r != Sat::sat) { fprintf(stderr, "egsym: warning: no full model\n"); }
    return m;
}
static void assume(E c) { if (!isTrue(c)) pc.push_back(c); }

// ------------------------------------------------------------------ forking
static std::vector<pid_t> kids;
static void flushStats() {
    static SolverStats last; static uint64_t lastPoly;
    SH->queries += gSolver.queries - last.queries; SH->sat += gSolver.sat - last.sat; SH->unsat += gSolver.unsat - last.unsat;
    SH->unknown += gSolver.unknown - last.unknown; SH->cached += gSolver.cached - last.cached; SH->lia += gSolver.lia - last.lia; SH->table += gSolver.table - last.table; SH->solverUs += (long)((gSolver.secs - last.secs) * 1e6);
    last = gSolver;
    SH->polyIds += gPolyIdentities - lastPoly; lastPoly = gPolyIdentities;
}
static uint64_t instCount, callCount;
static void flushInsts() { SH->insts += instCount; SH->calls += callCount; instCount = callCount = 0; }
static bool isRoot = true;
static std::string pathDesc;
// returns true in the process that takes branch A, false in the one that takes branch B
static bool forkState() {
    if (SH->stop) finishPath(0);
    if (elapsed() > optTimeout) internalError("time budget of %.0f s exhausted", optTimeout);
    if (SH->paths >= optMaxPaths) internalError("path budget of %ld exhausted", optMaxPaths);
    flushStats(); flushInsts();
    SH->forks++; SH->paths++;
    bool slot = sem_trywait(&SH->slots) == 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { if (slot) sem_post(&SH->slots); internalError("fork: %s", strerror(errno)); }
    if (p == 0) { isRoot = false; kids.clear(); return false; }
    if (slot) { kids.push_back(p); return true; }
    int st; // run the child first, in this process' slot; the child hands the slot back when it ends
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st))) { SH->errors++; fprintf(stderr, "egsym: child died with signal %d\n", WTERMSIG(st)); }
    while (sem_wait(&SH->slots) < 0 && errno == EINTR) {}
    if (SH->stop) finishPath(0);
    return true;
}
[[noreturn]] static void finishPath(int code) {
    flushStats(); flushInsts();
    fflush(stdout); fflush(stderr);
    sem_post(&SH->slots);
    for (pid_t p : kids) {
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st)) { SH->errors++; fprintf(stderr, "egsym: child died with signal %d\n", WTERMSIG(st)); }
    }
    if (!isRoot) _exit(code);
    throw code;
}
static void appendLine(const std::string &s) {
    int fd = open((optOut + ".events").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string l = s + "\n";
    if (write(fd, l.data(), l.size()) < 0) {}
    close(fd);
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
    return r + "\"";
}
static std::string backtrace();
static void internalError(const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    static bool rec = false;
    std::string bt = rec ? "" : (rec = true, backtrace());
    SH->errors++;
    appendLine("{\"event\":\"error\",\"msg\":" + jstr(b) + ",\"where\":" + jstr(bt) + "}");
    fprintf(stderr, "egsym: ERROR: %s\n%s\n", b, bt.c_str());
    SH->stop = 1;
    finishPath(2);
}
// other inputs on the same path that break the same assertion, as arbitrary as the constraints allow: functions that are
// only axiomatised have a meaning in the real code, and a model with special values (0, 1) may miss the difference
static std::vector<std::string> hashLog; // the hash variables in the order of the calls
static std::string altInputs(E cond, unsigned seed) {
    std::vector<E> cs = pc; if (cond) cs.push_back(cond);
    std::unordered_map<E, APInt> fixed;
    uint64_t st = (seed + 77) * 0xD6E8FEB86659FD93ULL; st ^= st >> 31;
    auto rnd = [&] { st += 0x9E3779B97F4A7C15ULL; uint64_t z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (uint8_t)(z >> 56); };
    double t0 = elapsed();
    Model m;
    if (solve(cs, &m, false) != Sat::sat) return "";
    auto tryFix = [&](const std::vector<E> &v, size_t from, size_t n) {
        std::vector<E> add = cs; 
        for (size_t k = from; k < from + n; k++) if (!v[k]->isConst()) add.push_back(mkEq(v[k], mkConst(8, rnd())));
        if (add.size() == cs.size()) return true;
        Model mm; if (solve(add, &mm, false) != Sat::sat) return false;
        cs.swap(add); m = mm; return true;
    };
    for (auto &in : inputs) {
        if (elapsed() - t0 > 6) break;
        bool sym = false; for (E e : in.second) sym = sym || !e->isConst();
        if (!sym) continue;
        std::function<void(size_t, size_t)> go = [&](size_t from, size_t n) {
            if (elapsed() - t0 > 6 || tryFix(in.second, from, n) || n <= 1) return;
            go(from, n / 2); go(from + n / 2, n - n / 2);
        };
        go(0, in.second.size());
    }
    std::string s = "{"; bool first = true; std::unordered_map<E, APInt> memo;
    for (auto &in : inputs) {
        if (!first) s += ","; first = false;
        std::string hex; char b[4];
        for (E e : in.second) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m.vals, memo).getZExtValue()); hex += b; }
        s += jstr(in.first) + ":\"" + hex + "\"";
    }
    return s + "}";
}
static void violation(const std::string &kind, const std::string &msg, Model *m, E cond) {
    Model mm; if (m) mm = *m; else mm = fullModel(nullptr);
    // complete the model over the whole path condition if it came from a slice
    std::string s = "{\"event\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(backtrace());
    s += ",\"inputs\":{";
    bool first = true;
    std::unordered_map<E, APInt> memo;
    for (auto &in : inputs) {
        if (!first) s += ","; first = false;
        std::string hex; char b[4];
        for (E e : in.second) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, mm.vals, memo).getZExtValue()); hex += b; }
        s += jstr(in.first) + ":\"" + hex + "\"";
    }
    s += "},\"atoms\":[";
    first = true;
    for (auto &a : gAtoms) { if (!first) s += ","; first = false; s += "[" + jstr(a.first.substr(0, 2000)) + "," + (a.second ? "true" : "false") + "]"; }
    s += "],\"subst\":{"; first = true;
    for (auto &a : gSubstStr) { if (!first) s += ","; first = false; s += jstr(a.first) + ":" + jstr(a.second.substr(0, 200000)); }
    s += "},\"notes\":["; first = true;
    for (auto &n : notes) { if (!first) s += ","; first = false; s += jstr(n); }
    s += "],\"hashes\":["; first = true;
    for (auto &n : hashLog) { if (!first) s += ","; first = false; s += jstr(n); }
    s += "],\"alts\":["; first = true;
    for (unsigned k = 1; k <= 4 && kind != "race"; k++) { std::string a = altInputs(cond, k); if (a.empty()) break; if (!first) s += ","; first = false; s += a; }
    s += "]}";
    appendLine(s);
    SH->violations++;
    if (!optKeepGoing || SH->violations > 20) SH->stop = 1;
    finishPath(1);
}
// decide a symbolic condition, forking if both outcomes are possible
static bool decide(E cond) {
    if (cond->isConst()) return isTrue(cond);
    bool t = maySat(cond);
    bool f = maySat(mkNot(cond));
    if (t && f) {
        if (forkState()) { assume(cond); return true; }
        assume(mkNot(cond)); return false;
    }
    if (!t && !f) internalError("path condition unsatisfiable");
    if (t) return true;
    return false;
}
static APInt someValue(E e) {
    if (e->isConst()) return e->val;
    Model m;
    auto cs = slice(e);
    if (!cs.empty()) {
        Sat r = Sat::unknown;
        for (auto &md : models) {
            std::unordered_map<E, APInt> memo; bool ok = true;
            for (size_t i = 0; ok && i < cs.size(); i++) ok = !evalExpr(cs[i], md.vals, memo).isZero();
            if (ok) { m = md; r = Sat::sat; break; }
        }
        if (r != Sat::sat) { r = solve(cs, &m, false); if (r == Sat::sat) remember(m); }
        if (r != Sat::sat) internalError("someValue: no model");
    }
    std::unordered_map<E, APInt> memo;
    return evalExpr(e, m.vals, memo);
}
static uint64_t concretize(const Val &v, unsigned w, const char *what) {
    if (!isSym(v)) return v.e ? v.e->val.getLimitedValue() : v.c;
    (void)w;
    E e = v.e;
    for (int i = 0; i < 5000; i++) {
        APInt x = someValue(e);
        if (decide(mkEq(e, mkConst(x)))) return x.getLimitedValue();
    }
    internalError("too many values when concretising %s", what);
}

// ------------------------------------------------------------------ memory access
static std::string addrStr(uint64_t a) {
    uint32_t id = a >> 32;
    char b[256];
    if (id < objs.size() && objs[id].kind) snprintf(b, 256, "object #%u%s%s (%lu bytes, %s) offset %d", id, objs[id].name ? " " : "", objs[id].name ? objs[id].name->c_str() : "", objs[id].size, objs[id].kind == 4 ? "freed" : objs[id].kind == 1 ? "heap" : objs[id].kind == 2 ? "stack" : "global", (int)(uint32_t)a);
    else snprintf(b, 256, "address 0x%lx", a);
    return b;
}
static int curThr = 0; // running thread, 0 outside eg_threads
static bool mtStopped, mtAtomicStop;
static uint64_t singleThreaded;
static void recordAccess(uint32_t id, uint64_t off, uint64_t n, bool write);
static Obj &checkAccess(uint64_t a, uint64_t n, bool write) {
    uint32_t id = a >> 32; uint64_t off = a & 0xffffffff;
    if (id == 0 || id >= objs.size() || objs[id].kind == 0 || objs[id].kind == 4 || off + n > objs[id].size)
        violation("memory", std::string(write ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes at " + addrStr(a));
    if (write && objs[id].ro) violation("memory", "write to read-only " + addrStr(a));
    if (curThr && !objs[id].ro && !objs[id].tls && objs[id].kind != 2) recordAccess(id, off, n, write);
    return objs[id];
}
static void ensureSym(Obj &o) { if (!o.sym) o.sym = (E *)calloc(o.size ? o.size : 1, sizeof(E)); }
static E byteE(Obj &o, uint64_t off) { if (o.sym && o.sym[off]) return o.sym[off]; return mkConst(8, o.data[off]); }
static inline void setByte(Obj &o, uint64_t off, E e) {
    if (e->isConst()) { o.data[off] = e->val.getZExtValue(); if (o.sym) o.sym[off] = nullptr; }
    else { ensureSym(o); o.sym[off] = e; }
}
static Val loadVal(uint64_t a, unsigned w) { // w bits
    unsigned n = (w + 7) / 8;
    Obj &o = checkAccess(a, n, false);
    uint64_t off = a & 0xffffffff;
    bool sym = false;
    if (o.sym) for (unsigned i = 0; i < n; i++) if (o.sym[off + i]) { sym = true; break; }
    if (!sym) {
        if (w <= 64) { uint64_t v = 0; memcpy(&v, o.data + off, n); return VC(v & maskw(w)); }
        std::vector<uint64_t> l((n + 7) / 8, 0); memcpy(l.data(), o.data + off, n);
        Val v; v.e = mkConst(APInt(n * 8, l).trunc(w)); return v;
    }
    E r = byteE(o, off);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteE(o, off + i), r);
    if (r->w > w) r = mkExtract(r, 0, w);
    return VE(r);
}
static void storeVal(uint64_t a, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8;
    Obj &o = checkAccess(a, n, true);
    uint64_t off = a & 0xffffffff;
    if (!v.e) {
        uint64_t c = v.c & maskw(w);
        memcpy(o.data + off, &c, n);
        if (o.sym) for (unsigned i = 0; i < n; i++) o.sym[off + i] = nullptr;
        return;
    }
    E e = v.e;
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) setByte(o, off + i, mkExtract(e, i * 8, 8));
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj &so = checkAccess(s, n, false);
    uint32_t sid = s >> 32;
    checkAccess(d, n, true);
    Obj &dob = objs[d >> 32]; Obj &sob = objs[sid]; (void)so;
    uint64_t doff = d & 0xffffffff, soff = s & 0xffffffff;
    memmove(dob.data + doff, sob.data + soff, n);
    if (sob.sym) { ensureSym(dob); memmove(dob.sym + doff, sob.sym + soff, n * sizeof(E)); }
    else if (dob.sym) memset(dob.sym + doff, 0, n * sizeof(E));
}
static std::string readCStr(uint64_t a, bool *symbolic = nullptr) {
    std::string r;
    for (;; a++) {
        Obj &o = checkAccess(a, 1, false);
        uint64_t off = a & 0xffffffff;
        if (o.sym && o.sym[off]) { if (symbolic) *symbolic = true; r += '?'; continue; }
        if (!o.data[off]) break;
        r += (char)o.data[off];
        if (r.size() > 100000) break;
    }
    return r;
}
// symbolic address: resolve to an object; report if it may leave the object
static const Val *symAddrCheck(const Val &addr, unsigned n, bool write, uint64_t &base, E &off) {
    APInt v = someValue(addr.e);
    uint64_t a = v.getZExtValue();
    uint32_t id = a >> 32;
    Obj &o = checkAccess(a, n, write);
    base = (uint64_t)id << 32;
    E b = mkConst(64, base);
    off = mkBin(K::Sub, addr.e, b);
    E inb = mkCmp(K::Ule, off, mkConst(64, o.size - n));
    Model m;
    if (maySat(mkNot(inb), &m)) {
        // other objects possible? decide by fork: stay in this object, or elsewhere
        if (!decide(inb)) {
            APInt v2 = someValue(addr.e);
            checkAccess(v2.getZExtValue(), n, write); // reports if invalid
            // valid in another object: enumerate
            return nullptr;
        }
    }
    return &addr;
}
static Val loadSym(const Val &addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    uint64_t base; E off;
    if (!symAddrCheck(addr, n, false, base, off)) return loadVal(concretize(addr, 64, "load address"), w);
    Obj &o = objs[base >> 32];
    // enumerate feasible offsets through an ite chain when the object is small
    std::vector<uint64_t> offs;
    E ex = mkBool(true);
    // stride heuristic: known low bits
    for (uint64_t i = 0; i + n <= o.size; i++) {
        E c = mkEq(off, mkConst(64, i));
        if (isFalse(c)) continue;
        offs.push_back(i);
    }
    (void)ex;
    if (offs.size() > 4096) return loadVal(concretize(addr, 64, "load address"), w);
    if (offs.size() > 64) { // prune infeasible ones cheaply using interval bounds
        std::vector<uint64_t> keep;
        // binary search on max
        uint64_t hi = offs.back(), lo = offs.front();
        while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; if (maySat(mkCmp(K::Ult, mkConst(64, mid), off))) lo = mid + 1; else hi = mid; }
        uint64_t mx = lo; lo = offs.front(); hi = mx;
        while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; if (maySat(mkCmp(K::Ule, off, mkConst(64, mid)))) hi = mid; else lo = mid + 1; }
        uint64_t mn = lo;
        unsigned al = n == 8 || n == 4 || n == 2 ? n : 1;
        bool aligned = al > 1 && !maySat(mkNot(mkEq(mkBin(K::URem, off, mkConst(64, al)), mkConst(64, mn % al))));
        for (uint64_t x : offs) if (x >= mn && x <= mx && (!aligned || x % al == mn % al)) keep.push_back(x);
        offs.swap(keep);
    }
    E r = nullptr;
    for (size_t i = offs.size(); i-- > 0;) {
        E v = toE(loadVal(base + offs[i], w), w);
        r = r ? mkIte(mkEq(off, mkConst(64, offs[i])), v, r) : v;
    }
    return VE(r);
}

// ------------------------------------------------------------------ decoded program
enum Opc : uint8_t { O_BIN, O_ICMP, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_INVOKE, O_CAST_ZEXT, O_CAST_SEXT, O_CAST_TRUNC, O_MOVE, O_SELECT, O_EXTRACTV, O_INSERTV, O_LPAD, O_RESUME, O_UNREACH, O_FBIN, O_FCMP, O_FCAST, O_CMPXCHG, O_RMW, O_FENCE, O_UNSUP, O_EXTELT, O_INSELT, O_SHUF, O_FNEG };
struct Opd { int slot = -1; Val v; };
struct PhiMove { int dst; Opd src; };
struct Edge { int target = 0; std::vector<PhiMove> phis; };
struct Fn;
typedef void (*Builtin)(struct Inst &, std::vector<Val> &);
struct Inst {
    Opc op; uint8_t sub = 0; uint16_t w = 0, w2 = 0;
    int dst = -1;
    Opd a, b, c;
    std::vector<Opd> args;
    std::vector<unsigned> argw;
    std::vector<std::pair<Opd, uint64_t>> scales; uint64_t koff = 0; // GEP
    std::vector<Edge> edges;
    std::vector<APInt> cases;
    std::vector<unsigned> idx;
    Fn *callee = nullptr; bool indirect = false;
    const Instruction *I = nullptr;
    Type *ty = nullptr;
    int intrin = 0;
    bool atomic = false;
};
struct Fn {
    const Function *F = nullptr;
    bool decoded = false, decl = false;
    std::string name;
    int index = 0;
    std::vector<Inst> code;
    std::vector<int> blockStart;
    int nslots = 0;
    void (*builtin)(Inst &, std::vector<Val> &, Fn *) = nullptr;
    int sync = 0; // a scheduling point
};
static std::vector<Fn> fns;
static std::unordered_map<const Function *, int> fnIdx;
static std::unordered_map<std::string, int> fnByName;
static std::unordered_map<const GlobalVariable *, uint64_t> gAddr;
static std::unordered_map<std::string, void (*)(Inst &, std::vector<Val> &, Fn *)> builtins;

struct Frame { Fn *fn; Val *regs; size_t pcIdx; std::vector<uint32_t> allocas; Inst *callInst; std::vector<Val> varargs; };
static std::vector<Frame> stack;
static Val retVal; // result of builtins

static std::string backtrace() {
    std::string s;
    int n = 0;
    for (size_t i = stack.size(); i-- > 0 && n < 14; n++) {
        auto &f = stack[i];
        s += f.fn->name;
        size_t p = f.pcIdx ? f.pcIdx - 1 : 0;
        if (p < f.fn->code.size() && f.fn->code[p].I)
            if (auto dl = f.fn->code[p].I->getDebugLoc()) s += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
        s += "\n";
    }
    return s;
}
static unsigned tyW(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 64;   // long double: whole numbers only, kept as 64-bit integers
    if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * tyW(v->getElementType());
    return 0;
}
static bool scalarTy(Type *t) { return !t->isStructTy() && !t->isArrayTy(); }

static uint64_t fnAddr(const Function *F) { return FNBASE + (uint64_t)fnIdx.at(F) * 16; }
static Val constVal(const Constant *c);
static Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return VC(ci->getZExtValue()); Val v; v.e = mkConst(ci->getValue()); return v; }
    if (isa<ConstantPointerNull>(c)) return VC(0);
    if (auto *cf = dyn_cast<ConstantFP>(c); cf && cf->getType()->isX86_FP80Ty()) {   // long double: whole numbers only, as integers
        APSInt i(64, false); bool exact; cf->getValueAPF().convertToInteger(i, APFloat::rmTowardZero, &exact);
        if (!exact) internalError("long double constant that is not a whole number");
        return VC(i.getZExtValue());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return VC(a.getZExtValue()); Val v; v.e = mkConst(a); return v; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        Type *t = c->getType();
        if (auto *st = dyn_cast<StructType>(t)) { Val v; v.agg = new std::vector<Val>; for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(constVal(c->getAggregateElement(i))); return v; }
        if (auto *at = dyn_cast<ArrayType>(t)) { Val v; v.agg = new std::vector<Val>; for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(constVal(c->getAggregateElement(i))); return v; }
        unsigned w = tyW(t);
        if (w <= 64) return VC(0);
        Val v; v.e = mkConst(w, 0); return v;
    }
    if (auto *f = dyn_cast<Function>(c)) return VC(fnAddr(f));
    if (auto *g = dyn_cast<GlobalVariable>(c)) return VC(gAddr.at(g));
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        if (isa<ConstantVector>(ca)) {
            unsigned ew = tyW(cast<FixedVectorType>(ca->getType())->getElementType()); E r = nullptr;
            for (unsigned i = 0; i < ca->getNumOperands(); i++) { E x = toE(constVal(ca->getOperand(i)), ew); r = r ? mkConcat(x, r) : x; }
            return VE(r);
        }
        Val v; v.agg = new std::vector<Val>;
        for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(constVal(ca->getOperand(i)));
        return v;
    }
    if (auto *cd = dyn_cast<ConstantDataVector>(c)) {
        unsigned ew = tyW(cd->getElementType()); E r = nullptr;
        for (unsigned i = 0; i < cd->getNumElements(); i++) { E x = toE(constVal(cd->getElementAsConstant(i)), ew); r = r ? mkConcat(x, r) : x; }
        return VE(r);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        Val v; v.agg = new std::vector<Val>;
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i)));
        return v;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) internalError("constant gep");
            return VC(constVal(ce->getOperand(0)).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
            Val v = constVal(ce->getOperand(0)); unsigned w = tyW(ce->getType()); if (!v.e) v.c &= maskw(w); return v;
        }
        case Instruction::Trunc: return VC(constVal(ce->getOperand(0)).c & maskw(tyW(ce->getType())));
        case Instruction::Add: return VC((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(tyW(ce->getType())));
        case Instruction::Sub: return VC((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(tyW(ce->getType())));
        case Instruction::ICmp: {
            uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
            return VC(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b);
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    internalError("unsupported constant %s", s.c_str());
}
static void storeTyped(uint64_t a, const Val &v, Type *t);
static void storeTyped(uint64_t a, const Val &v, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) storeTyped(a + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) storeTyped(a + i * es, (*v.agg)[i], at->getElementType());
        return;
    }
    storeVal(a, v, tyW(t));
}
static Val loadTyped(uint64_t a, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st); Val v; v.agg = new std::vector<Val>;
        for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadTyped(a + sl->getElementOffset(i), st->getElementType(i)));
        return v;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType()); Val v; v.agg = new std::vector<Val>;
        for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadTyped(a + i * es, at->getElementType()));
        return v;
    }
    return loadVal(a, tyW(t));
}
static void initGlobal(uint64_t a, const Constant *c) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || c->isNullValue()) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        Obj &o = objs[a >> 32]; memcpy(o.data + (a & 0xffffffff), raw.data(), raw.size()); return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(a + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(a + i * es, ca->getOperand(i));
        return;
    }
    storeVal(a, constVal(c), tyW(c->getType()));
}

// ------------------------------------------------------------------ decoding
static void decode(Fn &fn) {
    fn.decoded = true;
    const Function &F = *fn.F;
    std::unordered_map<const Value *, int> slot;
    int n = 0;
    for (auto &A : F.args()) slot[&A] = n++;
    for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    fn.nslots = n;
    std::unordered_map<const BasicBlock *, int> bidx;
    int bi = 0;
    for (auto &B : F) bidx[&B] = bi++;
    auto opd = [&](const Value *v) {
        Opd o;
        auto f = slot.find(v);
        if (f != slot.end()) { o.slot = f->second; return o; }
        if (auto *c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
        internalError("operand");
    };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.target = bidx[to];
        for (auto &P : to->phis()) e.phis.push_back({slot[&P], opd(P.getIncomingValueForBlock(from))});
        return e;
    };
    fn.blockStart.resize(bi);
    for (auto &B : F) {
        fn.blockStart[bidx[&B]] = fn.code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Inst x; x.I = &I; x.ty = I.getType();
            if (!I.getType()->isVoidTy()) x.dst = slot[&I];
            x.w = tyW(I.getType());
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                if (I.getType()->isFPOrFPVectorTy()) x.op = O_FBIN; else x.op = O_BIN;
                x.sub = bo->getOpcode(); x.a = opd(bo->getOperand(0)); x.b = opd(bo->getOperand(1));
                if (I.getType()->isVectorTy()) { bool bw = bo->getOpcode() == Instruction::And || bo->getOpcode() == Instruction::Or || bo->getOpcode() == Instruction::Xor; if (!bw) x.op = O_UNSUP; }
            } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                x.op = ic->getOperand(0)->getType()->isVectorTy() ? O_UNSUP : O_ICMP; x.sub = ic->getPredicate(); x.a = opd(ic->getOperand(0)); x.b = opd(ic->getOperand(1)); x.w2 = tyW(ic->getOperand(0)->getType());
            } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
                x.op = O_FCMP; x.sub = fc->getPredicate(); x.a = opd(fc->getOperand(0)); x.b = opd(fc->getOperand(1)); x.w2 = tyW(fc->getOperand(0)->getType());
            } else if (auto *l = dyn_cast<LoadInst>(&I)) {
                x.op = O_LOAD; x.a = opd(l->getPointerOperand()); x.atomic = l->isAtomic();
            } else if (auto *s = dyn_cast<StoreInst>(&I)) {
                x.op = O_STORE; x.a = opd(s->getPointerOperand()); x.atomic = s->isAtomic(); x.b = opd(s->getValueOperand()); x.ty = s->getValueOperand()->getType(); x.w2 = tyW(x.ty);
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                x.op = O_GEP; x.a = opd(g->getPointerOperand());
                if (g->getType()->isVectorTy()) x.op = O_UNSUP;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *st = it.getStructTypeOrNull()) x.koff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else {
                        uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) x.koff += ci->getSExtValue() * sz;
                        else { Opd o = opd(ix); x.scales.push_back({o, sz}); x.argw.push_back(tyW(ix->getType())); }
                    }
                }
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                x.op = O_ALLOCA; x.koff = DL->getTypeAllocSize(al->getAllocatedType()); x.a = opd(al->getArraySize());
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) { x.op = O_CBR; x.a = opd(br->getCondition()); x.edges.push_back(edge(&B, br->getSuccessor(0))); x.edges.push_back(edge(&B, br->getSuccessor(1))); }
                else { x.op = O_BR; x.edges.push_back(edge(&B, br->getSuccessor(0))); }
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                x.op = O_SWITCH; x.a = opd(sw->getCondition()); x.w2 = tyW(sw->getCondition()->getType());
                x.edges.push_back(edge(&B, sw->getDefaultDest()));
                for (auto &cs : sw->cases()) { x.cases.push_back(cs.getCaseValue()->getValue()); x.edges.push_back(edge(&B, cs.getCaseSuccessor())); }
            } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
                x.op = O_RET; if (r->getReturnValue()) { x.a = opd(r->getReturnValue()); x.koff = 1; }
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                x.op = isa<InvokeInst>(cb) ? O_INVOKE : O_CALL;
                if (cb->isInlineAsm()) { x.op = O_FENCE; fn.code.push_back(x); continue; }
                const Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto *cf = dyn_cast<Function>(cv)) { x.callee = &fns[fnIdx.at(cf)]; x.intrin = cf->getIntrinsicID(); }
                else { x.indirect = true; x.a = opd(cb->getCalledOperand()); }
                for (auto &A : cb->args()) { x.args.push_back(opd(A)); x.argw.push_back(tyW(A->getType())); }
                if (auto *iv = dyn_cast<InvokeInst>(cb)) { x.edges.push_back(edge(&B, iv->getNormalDest())); x.edges.push_back(edge(&B, iv->getUnwindDest())); }
                if (x.intrin == Intrinsic::lifetime_start || x.intrin == Intrinsic::lifetime_end || x.intrin == Intrinsic::experimental_noalias_scope_decl || x.intrin == Intrinsic::assume) continue;
                // byval arguments get their own copy
                for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) { x.idx.resize(cb->arg_size(), 0); x.idx[i] = DL->getTypeAllocSize(cb->getParamByValType(i)); }
            } else if (auto *ca = dyn_cast<CastInst>(&I)) {
                x.a = opd(ca->getOperand(0)); x.w2 = tyW(ca->getOperand(0)->getType());
                bool vec = ca->getType()->isVectorTy() && ca->getOpcode() != Instruction::BitCast;
                switch (ca->getOpcode()) {
                case Instruction::ZExt: x.op = O_CAST_ZEXT; break;
                case Instruction::SExt: x.op = O_CAST_SEXT; break;
                case Instruction::Trunc: x.op = O_CAST_TRUNC; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w < x.w2 ? O_CAST_TRUNC : x.w > x.w2 ? O_CAST_ZEXT : O_MOVE; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: x.op = O_MOVE; break;
                default: x.op = O_FCAST; x.sub = ca->getOpcode(); break;
                }
                if (vec) x.op = O_UNSUP;
            } else if (isa<FreezeInst>(&I)) { x.op = O_MOVE; x.a = opd(I.getOperand(0)); }
            else if (auto *se = dyn_cast<SelectInst>(&I)) { x.op = O_SELECT; x.a = opd(se->getCondition()); x.b = opd(se->getTrueValue()); x.c = opd(se->getFalseValue()); if (se->getCondition()->getType()->isVectorTy()) x.op = O_UNSUP; }
            else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { x.op = O_EXTRACTV; x.a = opd(ev->getAggregateOperand()); for (auto i : ev->indices()) x.idx.push_back(i); }
            else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { x.op = O_INSERTV; x.a = opd(iv->getAggregateOperand()); x.b = opd(iv->getInsertedValueOperand()); for (auto i : iv->indices()) x.idx.push_back(i); }
            else if (isa<LandingPadInst>(&I)) x.op = O_LPAD;
            else if (isa<ResumeInst>(&I)) { x.op = O_RESUME; x.a = opd(I.getOperand(0)); }
            else if (isa<UnreachableInst>(&I)) x.op = O_UNREACH;
            else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = O_CMPXCHG; x.a = opd(cx->getPointerOperand()); x.b = opd(cx->getCompareOperand()); x.c = opd(cx->getNewValOperand()); x.w2 = tyW(cx->getNewValOperand()->getType()); }
            else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { x.op = O_RMW; x.sub = rm->getOperation(); x.a = opd(rm->getPointerOperand()); x.b = opd(rm->getValOperand()); x.w2 = tyW(rm->getValOperand()->getType()); }
            else if (isa<FenceInst>(&I)) { continue; }
            else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { x.op = O_EXTELT; x.a = opd(ee->getVectorOperand()); x.b = opd(ee->getIndexOperand()); x.w2 = tyW(ee->getVectorOperand()->getType()); }
            else if (auto *ie = dyn_cast<InsertElementInst>(&I)) { x.op = O_INSELT; x.a = opd(ie->getOperand(0)); x.b = opd(ie->getOperand(1)); x.c = opd(ie->getOperand(2)); x.w2 = tyW(ie->getOperand(1)->getType()); }
            else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { x.op = O_SHUF; x.a = opd(sv->getOperand(0)); x.b = opd(sv->getOperand(1)); for (int m : sv->getShuffleMask()) x.idx.push_back(m < 0 ? 0 : m); x.w2 = tyW(sv->getOperand(0)->getType()); }
            else if (I.getOpcode() == Instruction::FNeg) { x.op = O_FNEG; x.a = opd(I.getOperand(0)); }
            else x.op = O_UNSUP;
            fn.code.push_back(std::move(x));
        }
    }
    fn.code.shrink_to_fit();
}

// ------------------------------------------------------------------ interpreter core
static inline Val get(Frame &f, const Opd &o) { return o.slot >= 0 ? f.regs[o.slot] : o.v; }
static Val binop(unsigned opc, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c, m = maskw(w);
        auto sx = [&](uint64_t v) -> int64_t { return w == 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); };
        switch (opc) {
        case Instruction::Add: return VC((x + y) & m);
        case Instruction::Sub: return VC((x - y) & m);
        case Instruction::Mul: return VC((x * y) & m);
        case Instruction::UDiv: if (!y) violation("arith", "division by zero"); return VC(x / y);
        case Instruction::URem: if (!y) violation("arith", "division by zero"); return VC(x % y);
        case Instruction::SDiv: if (!y) violation("arith", "division by zero"); return VC((uint64_t)(sx(x) / sx(y)) & m);
        case Instruction::SRem: if (!y) violation("arith", "division by zero"); return VC((uint64_t)(sx(x) % sx(y)) & m);
        case Instruction::And: return VC(x & y);
        case Instruction::Or: return VC(x | y);
        case Instruction::Xor: return VC(x ^ y);
        case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & m);
        case Instruction::LShr: return VC(y >= w ? 0 : x >> y);
        case Instruction::AShr: return VC((uint64_t)(y >= w ? (sx(x) < 0 ? -1 : 0) : sx(x) >> y) & m);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    K k;
    switch (opc) {
    case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break;
    case Instruction::UDiv: k = K::UDiv; break; case Instruction::URem: k = K::URem; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::SRem: k = K::SRem; break;
    case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; case Instruction::Xor: k = K::Xor; break;
    case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; case Instruction::AShr: k = K::AShr; break;
    default: internalError("binop");
    }
    if ((k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) && !y->isConst()) { if (decide(mkEq(y, mkConst(w, 0)))) violation("arith", "division by zero"); }
    return VE(mkBin(k, x, y));
}
static Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c; auto sx = [&](uint64_t v) -> int64_t { return w == 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); };
        switch (p) {
        case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y);
        case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y);
        case CmpInst::ICMP_SLT: return VC(sx(x) < sx(y)); case CmpInst::ICMP_SLE: return VC(sx(x) <= sx(y)); case CmpInst::ICMP_SGT: return VC(sx(x) > sx(y)); case CmpInst::ICMP_SGE: return VC(sx(x) >= sx(y));
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return VE(mkCmp(K::Ult, x, y)); case CmpInst::ICMP_ULE: return VE(mkCmp(K::Ule, x, y)); case CmpInst::ICMP_UGT: return VE(mkCmp(K::Ult, y, x)); case CmpInst::ICMP_UGE: return VE(mkCmp(K::Ule, y, x));
    case CmpInst::ICMP_SLT: return VE(mkCmp(K::Slt, x, y)); case CmpInst::ICMP_SLE: return VE(mkCmp(K::Sle, x, y)); case CmpInst::ICMP_SGT: return VE(mkCmp(K::Slt, y, x)); case CmpInst::ICMP_SGE: return VE(mkCmp(K::Sle, y, x));
    }
    internalError("icmp");
}
static Val selectVal(E c, const Val &a, const Val &b, unsigned w) {
    return VE(mkIte(c, toE(a, w), toE(b, w)));
}
static void takeEdge(Frame &f, Edge &e) {
    if (!e.phis.empty()) {
        if (e.phis.size() == 1) f.regs[e.phis[0].dst] = get(f, e.phis[0].src);
        else {
            Val tmp[64]; std::vector<Val> big; Val *t = tmp;
            if (e.phis.size() > 64) { big.resize(e.phis.size()); t = big.data(); }
            for (size_t i = 0; i < e.phis.size(); i++) t[i] = get(f, e.phis[i].src);
            for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].dst] = t[i];
        }
    }
    f.pcIdx = f.fn->blockStart[e.target];
}
static void pushFrame(Fn *fn, std::vector<Val> &args, Inst *ci) {
    if (!fn->decoded) decode(*fn);
    fnHit[fn->index] = 1;
    if (stack.size() > 4000) violation("stack", "call depth exceeds 4000");
    Frame f; f.fn = fn; f.regs = (Val *)calloc(fn->nslots + 1, sizeof(Val)); f.pcIdx = 0; f.callInst = ci;
    size_t np = fn->F->arg_size();
    for (size_t i = 0; i < np && i < args.size(); i++) f.regs[i] = args[i];
    for (size_t i = np; i < args.size(); i++) f.varargs.push_back(args[i]);
    stack.push_back(std::move(f));
}
static void popFrame() {
    Frame &f = stack.back();
    for (auto id : f.allocas) releaseObj(id);
    free(f.regs);
    stack.pop_back();
}
// exceptions
struct ExcInfo { uint64_t obj = 0, type = 0, dtor = 0; };
static std::map<uint64_t, ExcInfo> excs;      // live exception objects
static std::vector<uint64_t> caught;          // stack of handled exceptions
static uint64_t curExc = 0;                   // in flight (for landing pad)
static uint64_t lpSel = 0;
static size_t baseDepth = 0;

static uint64_t rd64(uint64_t a) { Val v = loadVal(a, 64); return v.c; }
static uint64_t tiSI, tiVMI, tiClass; // vtable addresses of type_info kinds
// does thrown type derive from target (adjusting pointer)?
static bool typeMatches(uint64_t thrown, uint64_t target, uint64_t &adj) {
    if (thrown == target) return true;
    // compare names (type infos may be duplicated)
    if (readCStr(rd64(thrown + 8)) == readCStr(rd64(target + 8))) return true;
    uint64_t vt = rd64(thrown) - 16;
    if (vt == tiSI) return typeMatches(rd64(thrown + 16), target, adj);
    if (vt == tiVMI) {
        Val cnt = loadVal(thrown + 20, 32);
        for (unsigned i = 0; i < cnt.c; i++) {
            uint64_t base = rd64(thrown + 24 + 16 * i); int64_t offf = (int64_t)rd64(thrown + 24 + 16 * i + 8);
            uint64_t a2 = adj + (offf >> 8);
            if (offf & 1) continue; // virtual base: unsupported
            if (typeMatches(base, target, a2)) { adj = a2; return true; }
        }
    }
    return false;
}
static void unwind();
static void runDone() {}
static std::string excDesc(uint64_t exc) {
    auto &x = excs[exc];
    std::string n = readCStr(rd64(x.type + 8));
    return n;
}
static void unwind() { // curExc in flight; find handler
    while (true) {
        if (stack.empty() || stack.size() <= baseDepth) violation("exception", "uncaught exception of type " + excDesc(curExc));
        Frame &f = stack.back();
        // is the current instruction of this frame an invoke?
        Inst &in = f.fn->code[f.pcIdx - 1];
        if (in.op == O_INVOKE) {
            Edge &e = in.edges[1];
            // evaluate landing pad clauses
            const BasicBlock *ub = cast<InvokeInst>(in.I)->getUnwindDest();
            const LandingPadInst *lp = ub->getLandingPadInst();
            ExcInfo &x = excs[curExc];
            bool hit = lp->isCleanup(); lpSel = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (lp->isCatch(i)) {
                    Val cv = constVal(lp->getClause(i));
                    uint64_t adj = x.obj;
                    if (cv.c == 0 || typeMatches(x.type, cv.c, adj)) { hit = true; lpSel = cv.c == 0 ? 1 : cv.c; break; }
                } else { // filter: treat as cleanup with negative selector -> not used by this code base
                    hit = true; lpSel = (uint64_t)-1; break;
                }
            }
            if (hit) { takeEdge(f, e); return; }
        }
        popFrame();
    }
}
static Inst *curInst;
static void doReturn(const Val &v, bool has) {
    Inst *ci = stack.back().callInst;
    popFrame();
    if (stack.size() <= baseDepth || !ci) { retVal = v; return; }
    Frame &f = stack.back();
    if (has && ci->dst >= 0) f.regs[ci->dst] = v;
    if (ci->op == O_INVOKE) takeEdge(f, ci->edges[0]);
}
static bool doIntrinsic(Frame &f, Inst &x, Val &res);

static bool mtYield(uint64_t addr, int kind);
static bool isGuard(uint64_t a);
static void atomicRead(uint64_t a, AtomicOrdering o);
static void atomicWrite(uint64_t a, AtomicOrdering o);
static bool mtAtomicNow;
// an atomic operation of a thread: other threads may run before it
#define MT_ATOMIC(addr) if (curThr) { uint64_t ma = (addr); if (!isGuard(ma) && mtYield(ma, 0)) { mtStopped = mtAtomicStop = true; stack.back().pcIdx--; return; } mtAtomicNow = true; }
static bool bcallPending; // set by a builtin that pushed a frame or unwound
static void run(size_t depth) {
    std::vector<Val> args;
    while (stack.size() > depth) {
        Frame &f = stack.back();
        Inst &x = f.fn->code[f.pcIdx++];
        instCount++;
        if ((instCount & 0xfffff) == 0) { if (SH->stop) finishPath(0); flushInsts(); if (elapsed() > optTimeout) internalError("time budget of %.0f s exhausted", optTimeout); if (SH->insts > optMaxInsts) internalError("instruction budget exhausted"); }
        switch (x.op) {
        case O_BIN: f.regs[x.dst] = binop(x.sub, get(f, x.a), get(f, x.b), x.w); break;
        case O_ICMP: f.regs[x.dst] = icmp(x.sub, get(f, x.a), get(f, x.b), x.w2); break;
        case O_LOAD: {
            Val a = get(f, x.a);
            if (x.atomic && curThr) { MT_ATOMIC(a.c); f.regs[x.dst] = loadVal(a.c, x.w); mtAtomicNow = false; atomicRead(a.c, cast<LoadInst>(x.I)->getOrdering()); break; }
            if (isSym(a)) { if (!x.w) { a = VC(concretize(a, 64, "address")); f.regs[x.dst] = loadTyped(a.c, x.ty); } else { Val r = loadSym(a, x.w); stack.back().regs[x.dst] = r; } }
            else if (x.w) f.regs[x.dst] = loadVal(a.c, x.w);
            else f.regs[x.dst] = loadTyped(a.c, x.ty);
            break;
        }
        case O_STORE: {
            Val a = get(f, x.a);
            uint64_t ad = isSym(a) ? concretize(a, 64, "store address") : a.c;
            if (x.atomic && curThr) { MT_ATOMIC(ad); storeVal(ad, get(f, x.b), x.w2); mtAtomicNow = false; atomicWrite(ad, cast<StoreInst>(x.I)->getOrdering()); break; }
            if (x.w2) storeVal(ad, get(f, x.b), x.w2); else storeTyped(ad, get(f, x.b), x.ty);
            break;
        }
        case O_GEP: {
            Val b = get(f, x.a);
            if (!x.scales.empty() || b.e) {
                uint64_t k = x.koff; E se = b.e; if (!b.e) k += b.c;
                for (size_t i = 0; i < x.scales.size(); i++) {
                    Val ix = get(f, x.scales[i].first); unsigned iw = x.argw[i];
                    if (isSym(ix)) {
                        E t = mkSExt(ix.e, 64); if (iw > 64) t = mkExtract(ix.e, 0, 64);
                        t = mkBin(K::Mul, t, mkConst(64, x.scales[i].second));
                        se = se ? mkBin(K::Add, se, t) : t;
                    } else {
                        uint64_t v = ix.e ? ix.e->val.getLimitedValue() : ix.c;
                        if (iw < 64) v = (uint64_t)(((int64_t)(v << (64 - iw))) >> (64 - iw));
                        k += v * x.scales[i].second;
                    }
                }
                if (se) f.regs[x.dst] = VE(mkBin(K::Add, se, mkConst(64, k))); else f.regs[x.dst] = VC(k);
            } else f.regs[x.dst] = VC(b.c + x.koff);
            break;
        }
        case O_ALLOCA: {
            uint64_t n = concretize(get(f, x.a), 64, "alloca size") * x.koff;
            uint64_t a = allocObj(n, 2);
            Frame &f2 = stack.back();
            f2.allocas.push_back(a >> 32); f2.regs[x.dst] = VC(a);
            break;
        }
        case O_BR: takeEdge(f, x.edges[0]); break;
        case O_CBR: {
            Val c = get(f, x.a);
            bool t = c.e ? decide(c.e) : (c.c & 1);
            takeEdge(stack.back(), x.edges[t ? 0 : 1]);
            break;
        }
        case O_SWITCH: {
            Val c = get(f, x.a);
            size_t tgt = 0;
            if (!c.e) { for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i].getZExtValue() == c.c) { tgt = i + 1; break; } }
            else {
                // values that lead to the same place with the same phi inputs are one case
                auto sameEdge = [](const Edge &a, const Edge &b) {
                    if (a.target != b.target || a.phis.size() != b.phis.size()) return false;
                    for (size_t k = 0; k < a.phis.size(); k++) {
                        auto &p = a.phis[k], &q = b.phis[k];
                        if (p.dst != q.dst || p.src.slot != q.src.slot || (p.src.slot < 0 && (p.src.v.c != q.src.v.c || p.src.v.e != q.src.v.e || p.src.v.agg != q.src.v.agg))) return false;
                    }
                    return true;
                };
                if (x.idx.empty()) {
                    x.idx.resize(x.cases.size());
                    for (size_t i = 0; i < x.cases.size(); i++) { size_t r = 0; while (r <= i && !sameEdge(x.edges[r], x.edges[i + 1])) r++; x.idx[i] = (unsigned)r; }
                }
                for (size_t i = 0; i < x.cases.size(); i++) {
                    if (x.idx[i] != i + 1) continue;
                    E any = mkBool(false);
                    for (size_t k = i; k < x.cases.size(); k++) if (x.idx[k] == i + 1) any = mkOr1(any, mkEq(c.e, mkConst(x.cases[k])));
                    if (decide(any)) { tgt = i + 1; break; }
                }
            }
            takeEdge(stack.back(), x.edges[tgt]);
            break;
        }
        case O_RET: { Val v; if (x.koff) v = get(f, x.a); doReturn(v, x.koff); break; }
        case O_CAST_ZEXT: { Val a = get(f, x.a); if (!a.e && x.w <= 64) f.regs[x.dst] = a; else f.regs[x.dst] = VE(mkZExt(toE(a, x.w2), x.w)); break; }
        case O_CAST_SEXT: {
            Val a = get(f, x.a);
            if (!a.e && x.w <= 64) f.regs[x.dst] = VC((uint64_t)(((int64_t)(a.c << (64 - x.w2))) >> (64 - x.w2)) & maskw(x.w));
            else f.regs[x.dst] = VE(mkSExt(toE(a, x.w2), x.w));
            break;
        }
        case O_CAST_TRUNC: { Val a = get(f, x.a); if (!a.e) f.regs[x.dst] = VC(a.c & maskw(x.w)); else f.regs[x.dst] = VE(mkExtract(a.e, 0, x.w)); break; }
        case O_MOVE: f.regs[x.dst] = get(f, x.a); break;
        case O_SELECT: {
            Val c = get(f, x.a);
            if (!c.e) { f.regs[x.dst] = (c.c & 1) ? get(f, x.b) : get(f, x.c); break; }
            Val a = get(f, x.b), b = get(f, x.c);
            // selecting between pointers: fork rather than build a symbolic address
            if (a.agg || b.agg || (x.ty->isPointerTy() && !(a.e == b.e && a.c == b.c))) { bool t = decide(c.e); stack.back().regs[x.dst] = t ? a : b; }
            else f.regs[x.dst] = selectVal(c.e, a, b, x.w);
            break;
        }
        case O_EXTRACTV: { Val a = get(f, x.a); for (auto i : x.idx) a = (*a.agg)[i]; f.regs[x.dst] = a; break; }
        case O_INSERTV: {
            Val a = get(f, x.a), b = get(f, x.b);
            std::function<Val(const Val &, size_t)> ins = [&](const Val &v, size_t d) -> Val { if (d == x.idx.size()) return b; Val r; r.agg = new std::vector<Val>(*v.agg); (*r.agg)[x.idx[d]] = ins((*v.agg)[x.idx[d]], d + 1); return r; };
            f.regs[x.dst] = ins(a, 0);
            break;
        }
        case O_LPAD: { Val v; v.agg = new std::vector<Val>{VC(curExc), VC(lpSel & 0xffffffff)}; (*v.agg)[1] = VC((uint32_t)(lpSel == (uint64_t)-1 ? -1 : (lpSel == 0 ? 0 : (lpSel == 1 ? 1 : (lpSel >> 32) * 16 + (lpSel & 0xffffffff) % 16 + 16)))); f.regs[x.dst] = v; break; }
        case O_RESUME: { Val v = get(f, x.a); curExc = (*v.agg)[0].c; popFrame(); unwind(); break; }
        case O_UNREACH: violation("unreachable", "reached an unreachable instruction (undefined behaviour)");
        case O_CMPXCHG: {
            uint64_t a = concretize(get(f, x.a), 64, "address"); MT_ATOMIC(a); Val old = loadVal(a, x.w2); Val eq = icmp(CmpInst::ICMP_EQ, old, get(f, x.b), x.w2);
            bool t = eq.e ? decide(eq.e) : eq.c; Frame &f2 = stack.back();
            if (t) storeVal(a, get(f2, x.c), x.w2);
            mtAtomicNow = false; if (curThr) { auto o = cast<AtomicCmpXchgInst>(x.I)->getSuccessOrdering(); atomicRead(a, o); if (t) atomicWrite(a, o); }
            Val v; v.agg = new std::vector<Val>{old, VC(t)}; f2.regs[x.dst] = v; break;
        }
        case O_RMW: {
            uint64_t a = concretize(get(f, x.a), 64, "address"); MT_ATOMIC(a); Val old = loadVal(a, x.w2), b = get(f, x.b), nv;
            switch (x.sub) {
            case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, b, x.w2); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, b, x.w2); break;
            case AtomicRMWInst::And: nv = binop(Instruction::And, old, b, x.w2); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, b, x.w2); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, b, x.w2); break;
            default: internalError("atomicrmw");
            }
            storeVal(a, nv, x.w2); f.regs[x.dst] = old;
            mtAtomicNow = false; if (curThr) { auto o = cast<AtomicRMWInst>(x.I)->getOrdering(); atomicRead(a, o); atomicWrite(a, o); }
            break;
        }
        case O_FENCE: if (x.dst >= 0) f.regs[x.dst] = VC(0); break;
        case O_FBIN: case O_FNEG: {
            Val a = get(f, x.a), b = x.op == O_FBIN ? get(f, x.b) : VC(0);
            if (x.I->getType()->isX86_FP80Ty()) {
                E p = toE(a, 64), q = toE(b, 64);
                if (x.op == O_FNEG) { f.regs[x.dst] = binop(Instruction::Sub, VC(0), a, 64); break; }
                switch (x.sub) {
                case Instruction::FAdd: f.regs[x.dst] = binop(Instruction::Add, a, b, 64); break;
                case Instruction::FSub: f.regs[x.dst] = binop(Instruction::Sub, a, b, 64); break;
                case Instruction::FMul: f.regs[x.dst] = binop(Instruction::Mul, a, b, 64); break;
                default:
                    if (x.sub != Instruction::FDiv || !q->isConst() || q->val.isZero()) internalError("long double operation");
                    if (q->val.isOne()) { f.regs[x.dst] = a; break; }
                    if (!p->isConst() || p->val.srem(q->val) != 0) internalError("long double division with a remainder");
                    f.regs[x.dst] = VC(p->val.sdiv(q->val).getZExtValue());
                }
                break;
            }
            if (a.e || b.e) internalError("symbolic or wide floating point");
            auto go = [&](auto t) { decltype(t) p, q, r = 0; memcpy(&p, &a.c, sizeof p); memcpy(&q, &b.c, sizeof q);
                if (x.op == O_FNEG) r = -p; else switch (x.sub) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; case Instruction::FRem: r = std::fmod(p, q); break; }
                uint64_t o = 0; memcpy(&o, &r, sizeof r); return VC(o); };
            f.regs[x.dst] = x.w == 32 ? go(float()) : go(double());
            break;
        }
        case O_FCMP: {
            Val a = get(f, x.a), b = get(f, x.b);
            if (x.I->getOperand(0)->getType()->isX86_FP80Ty()) {
                unsigned p = 0;
                switch (x.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: p = CmpInst::ICMP_EQ; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: p = CmpInst::ICMP_NE; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: p = CmpInst::ICMP_SGT; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: p = CmpInst::ICMP_SGE; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: p = CmpInst::ICMP_SLT; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: p = CmpInst::ICMP_SLE; break; default: internalError("long double comparison"); }
                f.regs[x.dst] = icmp(p, a, b, 64); break;
            }
            if (a.e || b.e) internalError("symbolic floating point");
            auto go = [&](auto t) { decltype(t) p, q; memcpy(&p, &a.c, sizeof p); memcpy(&q, &b.c, sizeof q); bool un = p != p || q != q;
                switch (x.sub) { case CmpInst::FCMP_OEQ: return !un && p == q; case CmpInst::FCMP_OGT: return p > q; case CmpInst::FCMP_OGE: return p >= q; case CmpInst::FCMP_OLT: return p < q; case CmpInst::FCMP_OLE: return p <= q; case CmpInst::FCMP_ONE: return !un && p != q; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || p == q; case CmpInst::FCMP_UGT: return un || p > q; case CmpInst::FCMP_UGE: return un || p >= q; case CmpInst::FCMP_ULT: return un || p < q; case CmpInst::FCMP_ULE: return un || p <= q; case CmpInst::FCMP_UNE: return un || p != q; }
                return false; };
            f.regs[x.dst] = VC(x.w2 == 32 ? go(float()) : go(double())); break;
        }
        case O_FCAST: {
            Val a = get(f, x.a);
            if (x.I->getType()->isX86_FP80Ty() || x.I->getOperand(0)->getType()->isX86_FP80Ty()) {
                switch (x.sub) {
                case Instruction::UIToFP: f.regs[x.dst] = VE(mkZExt(toE(a, x.w2), 64)); break;
                case Instruction::SIToFP: f.regs[x.dst] = VE(mkSExt(toE(a, x.w2), 64)); break;
                case Instruction::FPToUI: case Instruction::FPToSI: f.regs[x.dst] = VE(mkExtract(toE(a, 64), 0, x.w)); break;
                default: internalError("long double conversion");
                }
                break;
            }
            if (isSym(a)) a = VC(concretize(a, x.w2, "int to float"));
            if (a.e) internalError("wide float cast");
            double d = 0; auto asd = [&]() { if (x.w2 == 32) { float t; memcpy(&t, &a.c, 4); return (double)t; } double t; memcpy(&t, &a.c, 8); return t; };
            uint64_t o = 0; int64_t s = x.w2 == 64 ? (int64_t)a.c : (int64_t)(a.c << (64 - x.w2)) >> (64 - x.w2);
            auto put = [&](double v) { if (x.w == 32) { float t = (float)v; memcpy(&o, &t, 4); } else memcpy(&o, &v, 8); };
            switch (x.sub) {
            case Instruction::UIToFP: if (x.w == 32) { float t = (float)a.c; memcpy(&o, &t, 4); } else put((double)a.c); break;
            case Instruction::SIToFP: if (x.w == 32) { float t = (float)s; memcpy(&o, &t, 4); } else put((double)s); break;
            case Instruction::FPToUI: d = asd(); o = (uint64_t)d & maskw(x.w); break;
            case Instruction::FPToSI: d = asd(); o = (uint64_t)(int64_t)d & maskw(x.w); break;
            case Instruction::FPExt: case Instruction::FPTrunc: put(asd()); break;
            default: internalError("fcast");
            }
            f.regs[x.dst] = VC(o); break;
        }
        case O_EXTELT: { Val a = get(f, x.a); uint64_t i = concretize(get(f, x.b), 64, "vector index"); E v = toE(a, x.w2); stack.back().regs[x.dst] = VE(mkExtract(v, i * x.w, x.w)); break; }
        case O_INSELT: {
            Val a = get(f, x.a); uint64_t i = concretize(get(f, x.c), 64, "vector index"); E v = toE(a, x.w), e = toE(get(f, x.b), x.w2);
            unsigned lo = i * x.w2; E r = e; if (lo) r = mkConcat(r, mkExtract(v, 0, lo)); if (lo + x.w2 < x.w) r = mkConcat(mkExtract(v, lo + x.w2, x.w - lo - x.w2), r);
            stack.back().regs[x.dst] = VE(r); break;
        }
        case O_SHUF: {
            E a = toE(get(f, x.a), x.w2), b = toE(get(f, x.b), x.w2), r = nullptr; unsigned n = x.idx.size(), ew = x.w / n, na = x.w2 / ew;
            for (unsigned i = 0; i < n; i++) { unsigned m = x.idx[i]; E p = m < na ? mkExtract(a, m * ew, ew) : mkExtract(b, (m - na) * ew, ew); r = r ? mkConcat(p, r) : p; }
            f.regs[x.dst] = VE(r); break;
        }
        case O_UNSUP: { std::string s; raw_string_ostream os(s); x.I->print(os); internalError("unsupported instruction %s", s.c_str()); }
        case O_CALL: case O_INVOKE: {
            if (x.intrin) {
                Val r;
                if (!doIntrinsic(f, x, r)) { std::string s; raw_string_ostream os(s); x.I->print(os); internalError("unsupported intrinsic %s", s.c_str()); }
                if (x.dst >= 0) stack.back().regs[x.dst] = r;
                if (x.op == O_INVOKE) takeEdge(stack.back(), x.edges[0]);
                break;
            }
            Fn *cf = x.callee;
            if (x.indirect) {
                uint64_t a = concretize(get(f, x.a), 64, "function pointer");
                if (a < FNBASE || (a - FNBASE) % 16 || (a - FNBASE) / 16 >= fns.size()) violation("memory", "call through invalid function pointer " + addrStr(a));
                cf = &fns[(a - FNBASE) / 16];
            }
            callCount++;
            args.clear();
            Frame &f1 = stack.back();
            for (size_t i = 0; i < x.args.size(); i++) {
                Val v = get(f1, x.args[i]);
                if (!x.idx.empty() && x.idx[i]) { uint64_t cp = allocObj(x.idx[i], 2); f1.allocas.push_back(cp >> 32); copyMem(cp, v.c, x.idx[i]); v = VC(cp); }
                args.push_back(v);
            }
            if (optTrace) fprintf(stderr, "%*scall %s\n", (int)stack.size(), "", cf->name.c_str());
            if (cf->builtin) {
                if (curThr && cf->sync && mtYield(args[0].c, cf->sync)) { mtStopped = true; stack.back().pcIdx--; return; }
                retVal = Val(); bcallPending = false; curInst = &x;
                cf->builtin(x, args, cf);
                if (!bcallPending) {
                    Frame &f2 = stack.back();
                    if (x.dst >= 0) f2.regs[x.dst] = retVal;
                    if (x.op == O_INVOKE) takeEdge(f2, x.edges[0]);
                }
                break;
            }
            if (cf->decl) internalError("call to unmodelled external function %s", cf->name.c_str());
            pushFrame(cf, args, &x);
            break;
        }
        }
    }
}
// call a function from the engine and run it to completion (exceptions escaping are uncaught)
static Val callSync(Fn *fn, std::vector<Val> args) {
    size_t d = stack.size(); size_t ob = baseDepth;
    baseDepth = d;
    pushFrame(fn, args, nullptr);
    run(d);
    baseDepth = ob;
    return retVal;
}
static bool affineCopy(uint64_t d, const Val &src, uint64_t n);
static bool doIntrinsic(Frame &f, Inst &x, Val &res) {
    auto A = [&](int i) { return get(stack.back(), x.args[i]); };
    switch (x.intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: { uint64_t n = concretize(A(2), 64, "memcpy size"); uint64_t d = concretize(A(0), 64, "memcpy dst"); if (isSym(A(1)) && affineCopy(d, A(1), n)) return true; uint64_t s = concretize(A(1), 64, "memcpy src"); copyMem(d, s, n); return true; }
    case Intrinsic::memset: {
        uint64_t n = concretize(A(2), 64, "memset size"); uint64_t d = concretize(A(0), 64, "memset dst"); Val b = A(1);
        if (!n) return true;
        Obj &o = checkAccess(d, n, true); uint64_t off = d & 0xffffffff;
        if (!b.e) { memset(o.data + off, (int)b.c, n); if (o.sym) memset(o.sym + off, 0, n * sizeof(E)); }
        else for (uint64_t i = 0; i < n; i++) setByte(o, off + i, b.e);
        return true;
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::invariant_start: res = VC(0); return true;
    case Intrinsic::invariant_end: return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: res = A(0); return true;
    case Intrinsic::is_constant: res = VC(0); return true;
    case Intrinsic::objectsize: res = VC(maskw(x.w)); return true;
    case Intrinsic::stacksave: res = VC(0); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: violation("trap", "llvm.trap reached");
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        unsigned p = x.intrin == Intrinsic::umax ? CmpInst::ICMP_UGT : x.intrin == Intrinsic::umin ? CmpInst::ICMP_ULT : x.intrin == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        Val a = A(0), b = A(1), c = icmp(p, a, b, x.w); if (!c.e) res = c.c ? a : b; else res = selectVal(c.e, a, b, x.w); return true;
    }
    case Intrinsic::abs: { Val a = A(0), c = icmp(CmpInst::ICMP_SLT, a, VE(mkConst(x.w, 0)), x.w), n = binop(Instruction::Sub, VE(mkConst(x.w, 0)), a, x.w); if (!c.e) res = c.c ? n : a; else res = selectVal(c.e, n, a, x.w); return true; }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1), c = icmp(CmpInst::ICMP_ULT, a, b, x.w), n = binop(Instruction::Sub, a, b, x.w); Val z = VE(mkConst(x.w, 0)); if (!c.e) res = c.c ? z : n; else res = selectVal(c.e, z, n, x.w); return true; }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1), n = binop(Instruction::Add, a, b, x.w), c = icmp(CmpInst::ICMP_ULT, n, a, x.w); Val z = VE(mkConst(APInt::getAllOnes(x.w))); if (!c.e) res = c.c ? z : n; else res = selectVal(c.e, z, n, x.w); return true; }
    case Intrinsic::bswap: { E e = toE(A(0), x.w), r = nullptr; for (unsigned i = 0; i < x.w / 8; i++) { E p = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, p) : p; } res = VE(r); return true; }
    case Intrinsic::ctpop: { Val a = A(0); if (!a.e) { res = VC(__builtin_popcountll(a.c)); return true; } E r = mkConst(x.w, 0); for (unsigned i = 0; i < x.w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(a.e, i, 1), x.w)); res = VE(r); return true; }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        Val a = A(0); bool lz = x.intrin == Intrinsic::ctlz;
        if (!a.e) { APInt v(x.w, a.c); res = VC(lz ? v.countl_zero() : v.countr_zero()); return true; }
        E r = mkConst(x.w, x.w);
        for (unsigned k = 0; k < x.w; k++) { unsigned bit = lz ? k : x.w - 1 - k; r = mkIte(mkExtract(a.e, bit, 1), mkConst(x.w, lz ? x.w - 1 - bit : bit), r); }
        res = VE(r); return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = x.w; E a = toE(A(0), w), b = toE(A(1), w), s = toE(A(2), w);
        s = mkBin(K::URem, s, mkConst(w, w));
        E cc = mkConcat(a, b), sw = mkZExt(s, 2 * w);
        res = VE(x.intrin == Intrinsic::fshl ? mkExtract(mkBin(K::Shl, cc, sw), w, w) : mkExtract(mkBin(K::LShr, cc, sw), 0, w)); return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w = x.argw[0]; Val a = A(0), b = A(1), r, o;
        if (x.intrin == Intrinsic::uadd_with_overflow) { r = binop(Instruction::Add, a, b, w); o = icmp(CmpInst::ICMP_ULT, r, a, w); }
        else if (x.intrin == Intrinsic::usub_with_overflow) { r = binop(Instruction::Sub, a, b, w); o = icmp(CmpInst::ICMP_ULT, a, b, w); }
        else {
            bool sg = x.intrin != Intrinsic::umul_with_overflow; E ea = toE(a, w), eb = toE(b, w);
            E xa = sg ? mkSExt(ea, 2 * w) : mkZExt(ea, 2 * w), xb = sg ? mkSExt(eb, 2 * w) : mkZExt(eb, 2 * w);
            K k = x.intrin == Intrinsic::sadd_with_overflow ? K::Add : x.intrin == Intrinsic::ssub_with_overflow ? K::Sub : K::Mul;
            E p = mkBin(k, xa, xb); E lo = mkExtract(p, 0, w); r = VE(lo); o = VE(mkNot(mkEq(sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w), p)));
        }
        res.agg = new std::vector<Val>{r, o}; return true;
    }
    case Intrinsic::eh_typeid_for: { uint64_t t = A(0).c; res = VC(t == 0 ? 1 : (uint32_t)((t >> 32) * 16 + (t & 0xffffffff) % 16 + 16)); return true; }
    case Intrinsic::vastart: internalError("varargs");
    case Intrinsic::floor: case Intrinsic::ceil: { Val a = A(0); if (x.w == 64) { double d; memcpy(&d, &a.c, 8); d = x.intrin == Intrinsic::ceil ? std::ceil(d) : std::floor(d); uint64_t o; memcpy(&o, &d, 8); res = VC(o); } else { float d; memcpy(&d, &a.c, 4); d = x.intrin == Intrinsic::ceil ? std::ceil(d) : std::floor(d); uint64_t o = 0; memcpy(&o, &d, 4); res = VC(o); } return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { Val a = A(0), b = A(1), c = A(2); if (x.w == 64) { double p, q, r; memcpy(&p, &a.c, 8); memcpy(&q, &b.c, 8); memcpy(&r, &c.c, 8); p = p * q + r; uint64_t o; memcpy(&o, &p, 8); res = VC(o); } else { float p, q, r; memcpy(&p, &a.c, 4); memcpy(&q, &b.c, 4); memcpy(&r, &c.c, 4); p = p * q + r; uint64_t o = 0; memcpy(&o, &p, 4); res = VC(o); } return true; }
    case Intrinsic::fabs: { Val a = A(0); res = VC(a.c & ~(1ULL << (x.w - 1))); return true; }
    case Intrinsic::threadlocal_address: res = A(0); return true;
    case Intrinsic::load_relative: internalError("load.relative");
    default: return false;
    }
}
#include "builtins.inc"

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nxt();
        else if (a == "--out") optOut = nxt();
        else if (a == "--jobs") optJobs = atol(nxt().c_str());
        else if (a == "--timeout") optTimeout = atof(nxt().c_str());
        else if (a == "--max-paths") optMaxPaths = atol(nxt().c_str());
        else if (a == "--trace") optTrace = true;
        else if (a == "--atoms") optAtoms = true;
        else if (a == "--keep-going") optKeepGoing = true;
        else if (a == "--def") { auto d = nxt(); auto p = d.find('='); optDefs[d.substr(0, p)] = d.substr(p + 1); }
        else optModule = a;
    }
    if (optOut.empty()) optOut = "/tmp/egsym." + std::to_string(getpid());
    unlink((optOut + ".events").c_str());
    tStart = std::chrono::steady_clock::now();
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sem_init(&SH->slots, 1, optJobs - 1);
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(optModule, err, ctx);
    if (!M) { err.print("egsym", errs()); return 2; }
    gM = M.get(); DL = &M->getDataLayout();
    objs.resize(0x100);
    fns.resize(M->size());
    int n = 0;
    registerBuiltins();
    for (auto &F : *M) {
        Fn &f = fns[n]; f.F = &F; f.index = n; f.name = F.getName().str(); f.decl = F.isDeclaration();
        auto b = builtins.find(f.name);
        if (b != builtins.end() && (f.decl || f.name.rfind("eg_", 0) == 0)) { f.builtin = b->second; f.sync = syncKind(f.name); }
        fnIdx[&F] = n; fnByName[f.name] = n; n++;
    }
    fnHit = (uint8_t *)mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto &G : M->globals()) {
        uint64_t sz = DL->getTypeAllocSize(G.getValueType());
        if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
        gAddr[&G] = allocObj(sz, 3, G.getName().str().c_str());
        std::string nm = G.getName().str();
        objs[gAddr[&G] >> 32].tls = G.isThreadLocal();
        if (nm == "__libc_single_threaded") singleThreaded = gAddr[&G];
        if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiSI = gAddr[&G];
        if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tiVMI = gAddr[&G];
        if (nm == "_ZTVN10__cxxabiv117__class_type_infoE") tiClass = gAddr[&G];
    }
    int code = 0;
    try {
        SH->paths = 1;
        for (auto &G : M->globals()) if (G.hasInitializer()) initGlobal(gAddr[&G], G.getInitializer());
        for (auto &G : M->globals()) if (G.isConstant()) objs[gAddr[&G] >> 32].ro = true;
        auto ef = fnByName.find(optEntry);
        if (ef == fnByName.end()) internalError("no entry %s", optEntry.c_str());
        // static constructors
        if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, const Function *>> cs;
            for (auto &op : ca->operands()) { auto *cs0 = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(cs0->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cs0->getOperand(0))->getZExtValue(), F}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &c : cs) callSync(&fns[fnIdx[c.second]], {});
        }
        callSync(&fns[ef->second], {});
        SH->pathsDone++;
        finishPath(0);
    } catch (int c) { code = c; }
    // report
    std::ofstream o(optOut);
    o << "{\"entry\":" << jstr(optEntry) << ",\"wall_s\":" << elapsed() << ",\"paths\":" << SH->paths << ",\"paths_completed\":" << SH->pathsDone << ",\"paths_assumed_away\":" << SH->pathsCut
      << ",\"forks\":" << SH->forks << ",\"instructions\":" << SH->insts << ",\"calls\":" << SH->calls << ",\"assertions_evaluated\":" << SH->asserts << ",\"assertions_by_solver\":" << SH->assertsSolver
      << ",\"queries\":" << SH->queries << ",\"sat\":" << SH->sat << ",\"unsat\":" << SH->unsat << ",\"unknown\":" << SH->unknown << ",\"cached_queries\":" << SH->cached << ",\"integer_queries\":" << SH->lia << ",\"byte_table_queries\":" << SH->table << ",\"solver_s\":" << SH->solverUs / 1e6
      << ",\"polynomial_identities\":" << SH->polyIds << ",\"hash_calls\":" << SH->hashCalls << ",\"atoms_decided\":" << SH->atomsAsked << ",\"violations\":" << SH->violations << ",\"errors\":" << SH->errors << ",\"reach\":[";
    for (int i = 0; i < 64; i++) o << (i ? "," : "") << SH->reach[i];
    o << "],\"functions\":[";
    bool first = true;
    for (auto &f : fns) if (fnHit[f.index]) { o << (first ? "" : ",") << jstr(f.name); first = false; }
    o << "],\"events\":[";
    std::ifstream ev(optOut + ".events"); std::string line; first = true;
    while (std::getline(ev, line)) { o << (first ? "" : ",") << line; first = false; }
    o << "]}\n";
    o.close();
    unlink((optOut + ".events").c_str());
    if (SH->violations) return 1;
    if (SH->errors) return 2;
    (void)code;
    return 0;
}
