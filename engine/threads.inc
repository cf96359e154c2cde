// Threads. eg_threads(n, f, arg) runs f(arg, i) for i < n under every schedule: control moves between threads at lock
// acquisitions and atomic operations, which one continues is a symbolic input. Accesses to memory are recorded; when
// all threads have ended the solver is asked for times of the accesses that respect program order and the order of
// synchronisation, in which two conflicting accesses overlap (a data race).
struct MemAcc { int thr, epoch; uint64_t off, n; bool write, atomic; const Inst *at; Fn *fn[3]; };
struct Thr { std::vector<Frame> stack; std::vector<uint64_t> caught; uint64_t curExc = 0, lpSel = 0; bool done = false, started = false; int epoch = 0; uint64_t want = 0; int wantKind = 0; };
struct Mtx { int owner = 0, depth = 0; std::set<int> readers; std::vector<std::pair<int, int>> wrel, rrel; };
static std::vector<Thr> thrs; // 1..n
static std::map<uint64_t, Mtx> mtxs;
static std::map<uint64_t, std::pair<int, int>> atomRel; // last releasing write
static std::vector<std::array<int, 4>> hbEdges;          // (thread, sync event) before (thread, sync event)
static std::unordered_map<uint32_t, std::vector<MemAcc>> accs;
static bool mtGo;
static void recordAccess(uint32_t id, uint64_t off, uint64_t n, bool write) {
    if (!n || !curThr) return;
    auto &v = accs[id];
    Thr &t = thrs[curThr];
    for (size_t i = v.size(), k = 0; i-- > 0 && k < 12; k++) { auto &r = v[i]; if (r.thr == curThr && r.epoch == t.epoch && r.off == off && r.n == n && r.write == write && r.atomic == mtAtomicNow) return;
        if (r.thr == curThr && r.epoch == t.epoch && r.write == write && r.atomic == mtAtomicNow && off >= r.off && off <= r.off + r.n) { r.n = std::max(r.n, off + n - r.off); return; } }
    MemAcc r{curThr, t.epoch, off, n, write, mtAtomicNow, nullptr, {}};
    for (size_t k = 0, i = stack.size(); i-- > 0 && k < 3; k++) { r.fn[k] = stack[i].fn; if (!k && stack[i].pcIdx) r.at = &stack[i].fn->code[stack[i].pcIdx - 1]; }
    v.push_back(r);
}
static int syncEvent() { return ++thrs[curThr].epoch; }
static void edgeFrom(const std::pair<int, int> &r, int ev) { if (r.first && r.first != curThr) hbEdges.push_back({r.first, r.second, curThr, ev}); }
static void acquireMtx(uint64_t a, bool shared) {
    Mtx &m = mtxs[a];
    if (!shared && m.owner == curThr) { m.depth++; return; }
    int ev = syncEvent();
    for (auto &r : m.wrel) edgeFrom(r, ev);
    if (!shared) for (auto &r : m.rrel) edgeFrom(r, ev);
    if (shared) m.readers.insert(curThr); else { m.owner = curThr; m.depth = 1; }
}
static void releaseMtx(uint64_t a) {
    Mtx &m = mtxs[a];
    if (m.readers.count(curThr)) { m.readers.erase(curThr); m.rrel.push_back({curThr, syncEvent()}); return; }
    if (m.owner != curThr) violation("threads", "a lock is released by a thread that does not hold it");
    if (--m.depth == 0) { m.owner = 0; m.wrel = {{curThr, syncEvent()}}; m.rrel.clear(); }
}
static bool canRun(Thr &t, int id) {
    if (t.done) return false;
    if (!t.want) return true;
    Mtx &m = mtxs[t.want];
    if (m.owner == id && t.wantKind == 1) { Val k = loadVal(t.want + 16, 32); return k.c == 1; } // recursive
    if (m.owner) return false;
    return t.wantKind == 2 || m.readers.empty();
}
enum { SY_NONE, SY_LOCK, SY_RDLOCK, SY_GUARD };
static int syncKind(const std::string &n) {
    if (n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock" || n == "__cxa_guard_acquire") return SY_LOCK;
    if (n == "pthread_rwlock_rdlock") return SY_RDLOCK;
    if (n == "pthread_mutex_trylock") return SY_GUARD; // a scheduling point that never blocks
    return SY_NONE;
}
// called before the engine carries out a synchronising operation; true: give up control first
static bool mtYield(uint64_t addr, int kind) {
    if (mtGo) { mtGo = false; return false; }
    thrs[curThr].want = kind == SY_LOCK || kind == SY_RDLOCK ? addr : 0; thrs[curThr].wantKind = kind;
    return true;
}
static bool isGuard(uint64_t a) { uint32_t id = a >> 32; return id < objs.size() && objs[id].name && objs[id].name->rfind("_ZGV", 0) == 0; }
static bool relOrd(AtomicOrdering o) { return isReleaseOrStronger(o); }
static bool acqOrd(AtomicOrdering o) { return isAcquireOrStronger(o); }
static std::set<std::array<int, 3>> joined; // (thread, releasing event) pairs already ordered by an earlier acquire
static void atomicRead(uint64_t a, AtomicOrdering o) {
    auto f = atomRel.find(a);
    if (f == atomRel.end() || !acqOrd(o) || f->second.first == curThr || !joined.insert({curThr, f->second.first, f->second.second}).second) return;
    edgeFrom(f->second, syncEvent());
}
static void atomicWrite(uint64_t a, AtomicOrdering o) { int ev = syncEvent(); if (relOrd(o)) atomRel[a] = {curThr, ev}; else atomRel.erase(a); }
static std::string accStr(const MemAcc &r) {
    std::string s = std::string(r.write ? "write" : "read") + " by thread " + std::to_string(r.thr) + " in ";
    for (int k = 0; k < 3; k++) if (r.fn[k]) s += (k ? " < " : "") + r.fn[k]->name;
    if (r.at && r.at->I) if (auto dl = r.at->I->getDebugLoc()) s += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
    return s;
}
static void checkRaces() {
    std::map<std::array<int, 4>, std::tuple<uint32_t, const MemAcc *, const MemAcc *>> pairs;
    for (auto &kv : accs) {
        auto &v = kv.second; bool multi = false, wr = false;
        for (auto &r : v) { multi = multi || r.thr != v[0].thr; wr = wr || r.write; }
        if (!multi || !wr) continue;
        for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
            auto &p = v[i], &q = v[j];
            if (p.thr == q.thr || !(p.write || q.write) || (p.atomic && q.atomic) || p.off + p.n <= q.off || q.off + q.n <= p.off) continue;
            pairs.emplace(std::array<int, 4>{p.thr, p.epoch, q.thr, q.epoch}, std::make_tuple(kv.first, &p, &q));
        }
    }
    SH->asserts++;
    if (pairs.empty()) return;
    std::vector<std::array<int, 4>> ps; for (auto &kv : pairs) ps.push_back(kv.first);
    std::vector<int> last; for (auto &t : thrs) last.push_back(t.epoch);
    int hit = solveOrder(last, hbEdges, ps);
    if (hit == -2) internalError("the solver gave no answer about the order of memory accesses");
    if (hit >= 0) {
        auto &x = pairs[ps[hit]];
        violation("race", "data race on " + addrStr((uint64_t)std::get<0>(x) << 32 | std::get<1>(x)->off) + ": " + accStr(*std::get<1>(x)) + " and " + accStr(*std::get<2>(x)));
    }
}
static uint32_t scheduleChoice(const std::vector<int> &en, bool atomic) {
    if (en.size() == 1) return 0;
    std::string nm = uniq(atomic ? "schedule_atomic" : "schedule");
    E v = mkVar(32, nm); std::vector<E> bytes; for (int i = 0; i < 4; i++) bytes.push_back(mkExtract(v, i * 8, 8));
    inputs.push_back({nm, bytes});
    assume(mkCmp(K::Ult, v, mkConst(32, en.size())));
    for (size_t i = 0; i + 1 < en.size(); i++) if (decide(mkEq(v, mkConst(32, i)))) return i;
    return en.size() - 1;
}
static int preemptions = 1 << 30; // how often a thread that could go on may be interrupted
BI(h_preemptions) { preemptions = (int)U(0); }
BI(h_threads) {
    uint64_t n = U(0), f = U(1), arg = U(2);
    if (curThr) internalError("nested threads");
    std::vector<Frame> mainStack; mainStack.swap(stack);
    auto mc = caught; auto me = curExc; auto ml = lpSel; size_t mb = baseDepth;
    baseDepth = 0;
    thrs.clear(); thrs.resize(n + 1); mtxs.clear(); atomRel.clear(); hbEdges.clear(); accs.clear(); joined.clear();
    Fn *body = &fns[(f - FNBASE) / 16];
    bool lastAtomic = false; int prev = 0, used = 0;
    if (singleThreaded) storeVal(singleThreaded, VC(0), 8);
    while (true) {
        std::vector<int> en; bool all = true;
        for (size_t i = 1; i <= n; i++) { if (!thrs[i].done) all = false; if (canRun(thrs[i], i)) en.push_back(i); }
        if (all) break;
        if (en.empty()) { stack.swap(mainStack); violation("threads", "deadlock: every thread waits for a lock"); }
        bool goOn = prev && canRun(thrs[prev], prev);
        int t = goOn && used >= preemptions ? prev : en[scheduleChoice(en, lastAtomic)];
        if (goOn && t != prev) used++;
        prev = t;
        Thr &th = thrs[t];
        curThr = t; stack.swap(th.stack); caught = th.caught; curExc = th.curExc; lpSel = th.lpSel;
        th.want = 0;
        if (!th.started) { th.started = true; std::vector<Val> av{VC(arg), VC(t - 1)}; pushFrame(body, av, nullptr); mtGo = false; } else mtGo = true;
        mtStopped = false; mtAtomicStop = false;
        run(0);
        if (!mtStopped) thrs[t].done = true;
        lastAtomic = mtAtomicStop;
        curThr = 0;
        Thr &th2 = thrs[t];
        stack.swap(th2.stack); th2.caught = caught; th2.curExc = curExc; th2.lpSel = lpSel;
    }
    for (auto &kv : mtxs) if (kv.second.owner) { stack.swap(mainStack); violation("threads", "a lock is still held after the thread that took it has ended"); }
    stack.swap(mainStack); caught = mc; curExc = me; lpSel = ml; baseDepth = mb;
    checkRaces();
    accs.clear();
    retVal = Val();
}
BI(b_mutex_lock) { if (curThr) acquireMtx(U(0), false); retVal = VC(0); }
BI(b_mutex_unlock) { if (curThr) releaseMtx(U(0)); retVal = VC(0); }
BI(b_rdlock) { if (curThr) acquireMtx(U(0), true); retVal = VC(0); }
BI(b_trylock) { retVal = VC(0); if (!curThr) return; Mtx &m = mtxs[U(0)]; if (m.owner || !m.readers.empty()) retVal = VC(16); else acquireMtx(U(0), false); }
BI(b_guard_acquire) {
    bool at = mtAtomicNow; mtAtomicNow = true; Val v = loadVal(U(0), 8); mtAtomicNow = at;
    if (!curThr) { retVal = VC(v.c ? 0 : 1); return; }
    if (v.c) { atomicRead(U(0), AtomicOrdering::Acquire); retVal = VC(0); return; }
    acquireMtx(U(0), false); retVal = VC(1);
}
BI(b_guard_release) {
    bool o = mtAtomicNow; mtAtomicNow = true; storeVal(U(0), VC(1), 8); mtAtomicNow = o;
    if (curThr) { atomicWrite(U(0), AtomicOrdering::Release); releaseMtx(U(0)); }
}
BI(b_guard_abort) { if (curThr) releaseMtx(U(0)); }
