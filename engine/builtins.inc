// Models of external functions and harness intrinsics. Included by egsym.cpp.
#define BI(name) static void name(Inst &xi, std::vector<Val> &a, Fn *fn)
#define U(i) concretize(a[i], 64, "argument")
static void skipCall() {}
struct Watch { uint32_t id; uint64_t off, n; std::string name; };
static std::vector<Watch> watches;
static std::map<std::string, int> symCount;
static std::string uniq(const std::string &n) { int k = symCount[n]++; return k ? n + "#" + std::to_string(k) : n; }

static void throwStd(const char *) {}
BI(b_malloc) { uint64_t n = U(0); retVal = VC(allocObj(n, 1)); objs[retVal.c >> 32].alloc = 0; }
BI(b_new) { uint64_t n = U(0); retVal = VC(allocObj(n, 1)); objs[retVal.c >> 32].alloc = 1; }
BI(b_newarr) { uint64_t n = U(0); retVal = VC(allocObj(n, 1)); objs[retVal.c >> 32].alloc = 2; }
BI(b_calloc) { uint64_t n = U(0) * U(1); retVal = VC(allocObj(n, 1)); objs[retVal.c >> 32].alloc = 0; }
// secrets: 8-byte pieces (in both byte orders) that no released memory may hold
static bool secretsOn; static std::map<std::string, std::string> secrets;
static void doFree(uint64_t p, int how) {
    if (!p) return;
    uint32_t id = p >> 32;
    if ((p & 0xffffffff) || id >= objs.size() || objs[id].kind != 1) violation("memory", std::string(id < objs.size() && objs[id].kind == 4 ? "double free of " : "invalid free of ") + addrStr(p));
    if (objs[id].alloc != how) violation("memory", "allocation/deallocation mismatch (new/new[]/malloc) for " + addrStr(p));
    for (size_t i = 0; i < watches.size(); i++) if (watches[i].id == id) {
        Obj &o = objs[id];
        for (uint64_t k = watches[i].off; k < watches[i].off + watches[i].n && k < o.size; k++)
            if ((o.sym && o.sym[k]) || o.data[k]) violation("assert", "memory of " + watches[i].name + " released without being wiped (byte " + std::to_string(k - watches[i].off) + ")");
        SH->asserts++; SH->reach[63]++;
        watches.erase(watches.begin() + i); i--;
    }
    if (!secrets.empty()) {
        Obj &o = objs[id]; SH->asserts++;
        for (uint64_t k = 0; k + 8 <= o.size; k++) {
            auto f = secrets.find(std::string((const char *)o.data + k, 8)); if (f == secrets.end()) continue;
            bool conc = true; if (o.sym) for (int j = 0; j < 8; j++) conc = conc && !o.sym[k + j];
            if (conc) violation("assert", "memory holding " + f->second + " released without being wiped");
        }
    }
    if (curThr) recordAccess(id, 0, objs[id].size, true);
    releaseObj(id);
}
BI(b_free) { doFree(U(0), 0); }
BI(b_delete) { doFree(U(0), 1); }
BI(b_deletearr) { doFree(U(0), 2); }
BI(b_realloc) {
    uint64_t p = U(0), n = U(1); uint64_t q = allocObj(n, 1); objs[q >> 32].alloc = 0;
    if (p) { uint64_t m = std::min(n, objs[p >> 32].size); copyMem(q, p, m); doFree(p, 0); }
    retVal = VC(q);
}
static bool affineCopy(uint64_t d, const Val &src, uint64_t n);
BI(b_memcpy) { uint64_t n = U(2); if (isSym(a[1]) && affineCopy(U(0), a[1], n)) { retVal = a[0]; return; } copyMem(U(0), U(1), n); retVal = a[0]; }
BI(b_memset) {
    uint64_t d = U(0), n = U(2); Val b = a[1]; if (b.e) b = VE(mkExtract(b.e, 0, 8));
    if (n) { Obj &o = checkAccess(d, n, true); uint64_t off = d & 0xffffffff; for (uint64_t i = 0; i < n; i++) setByte(o, off + i, toE(b, 8)); }
    retVal = a[0];
}
BI(b_bzero) { uint64_t d = U(0), n = U(1); if (n) { Obj &o = checkAccess(d, n, true); memset(o.data + (d & 0xffffffff), 0, n); if (o.sym) memset(o.sym + (d & 0xffffffff), 0, n * sizeof(E)); } retVal = a[0]; }
// returns expression of comparison result: bcmp -> 0/1 ; memcmp -> <0,0,>0
BI(b_memcmp) {
    uint64_t n = U(2), p = U(0), q = U(1); bool onlyEq = fn->name == "bcmp";
    if (!n) { retVal = VC(0); return; }
    Obj &o1 = checkAccess(p, n, false); (void)o1; checkAccess(q, n, false);
    Obj &A = objs[p >> 32], &B = objs[q >> 32]; uint64_t ao = p & 0xffffffff, bo = q & 0xffffffff;
    bool sym = false;
    if (A.sym) for (uint64_t i = 0; i < n && !sym; i++) sym = A.sym[ao + i];
    if (B.sym) for (uint64_t i = 0; i < n && !sym; i++) sym = B.sym[bo + i];
    if (!sym) { int r = memcmp(A.data + ao, B.data + bo, n); retVal = VC((uint32_t)(r < 0 ? -1 : r > 0)); return; }
    E r = mkConst(32, 0);
    for (uint64_t i = n; i-- > 0;) {
        E u = byteE(A, ao + i), v = byteE(B, bo + i);
        E ne = onlyEq ? mkConst(32, 1) : mkIte(mkCmp(K::Ult, u, v), mkConst(32, 0xffffffff), mkConst(32, 1));
        r = mkIte(mkEq(u, v), r, ne);
    }
    retVal = VE(r);
}
BI(b_strlen) {
    uint64_t p = U(0), n = 0;
    while (true) { Val v = loadVal(p + n, 8); if (isSym(v)) { if (decide(mkEq(v.e, mkConst(8, 0)))) break; } else if (!v.c) break; n++; }
    retVal = VC(n);
}
BI(b_memchr) {
    uint64_t p = U(0), n = U(2); Val c = a[1]; E ce = mkExtract(toE(c, 32), 0, 8);
    for (uint64_t i = 0; i < n; i++) { Val v = loadVal(p + i, 8); E eq = mkEq(toE(v, 8), ce); if (decide(eq)) { retVal = VC(p + i); return; } }
    retVal = VC(0);
}
BI(b_strcmp) {
    uint64_t p = U(0), q = U(1), lim = fn->name == "strncmp" ? U(2) : ~0ULL;
    for (uint64_t i = 0; i < lim; i++) {
        E u = toE(loadVal(p + i, 8), 8), v = toE(loadVal(q + i, 8), 8);
        if (!decide(mkEq(u, v))) { retVal = VC(decide(mkCmp(K::Ult, u, v)) ? 0xffffffff : 1); return; }
        if (decide(mkEq(u, mkConst(8, 0)))) break;
    }
    retVal = VC(0);
}
BI(b_zero) { retVal = VC(0); }
BI(b_one) { retVal = VC(1); }
BI(b_nop) { retVal = VC(0); }
BI(b_abort) { violation("abort", "call to " + fn->name); }
BI(b_assertfail) { violation("abort", "assertion failed: " + readCStr(U(0))); }
BI(b_cxa_alloc) { retVal = VC(allocObj(U(0), 1)); objs[retVal.c >> 32].alloc = 3; }
BI(b_cxa_freeexc) { excs.erase(U(0)); }
BI(b_cxa_throw) { ExcInfo e; e.obj = U(0); e.type = U(1); e.dtor = U(2); excs[e.obj] = e; curExc = e.obj; bcallPending = true; unwind(); }
BI(b_cxa_begin) { uint64_t p = U(0); caught.push_back(p); uint64_t adj = p; retVal = VC(adj); }
BI(b_cxa_end) { if (!caught.empty()) caught.pop_back(); }
BI(b_cxa_rethrow) { if (caught.empty()) violation("abort", "rethrow without exception"); curExc = caught.back(); caught.pop_back(); bcallPending = true; unwind(); }
BI(b_pure) { violation("abort", "pure virtual call"); }
BI(b_dynamic_cast) {
    uint64_t p = U(0), dst = U(2);
    if (!p) { retVal = VC(0); return; }
    uint64_t vp = rd64(p); int64_t top = (int64_t)rd64(vp - 16); uint64_t ti = rd64(vp - 8);
    uint64_t adj = p + top;
    retVal = VC(typeMatches(ti, dst, adj) ? adj : 0);
}
BI(b_time) { retVal = VC(1700000000); if (a.size() && !a[0].e && a[0].c) storeVal(a[0].c, retVal, 64); }
BI(b_clock_now) { retVal = VC(1700000000ULL * 1000000000ULL); } // a clock that stands still: the adversarial case for anything derived from it

// ---------------------------------------------------------------- harness intrinsics
BI(h_sym) {
    uint64_t p = U(0), n = U(1); std::string nm = uniq(readCStr(U(2)));
    Obj &o = checkAccess(p, n, true); std::vector<E> bytes;
    if (n == 8 || n == 4 || n == 2 || n == 16) { E v = mkVar(n * 8, nm); for (uint64_t i = 0; i < n; i++) bytes.push_back(mkExtract(v, i * 8, 8)); }
    else if (n % 8 == 0) { for (uint64_t k = 0; k < n / 8; k++) { E v = mkVar(64, nm + "[" + std::to_string(k) + "]"); for (int i = 0; i < 8; i++) bytes.push_back(mkExtract(v, i * 8, 8)); } }
    else for (uint64_t i = 0; i < n; i++) bytes.push_back(mkVar(8, nm + "[" + std::to_string(i) + "]"));
    for (uint64_t i = 0; i < n; i++) setByte(o, (p & 0xffffffff) + i, bytes[i]);
    inputs.push_back({nm, bytes});
}
BI(h_sym_bytes) {
    uint64_t p = U(0), n = U(1); std::string nm = uniq(readCStr(U(2))); Obj &o = checkAccess(p, n, true); std::vector<E> bytes;
    for (uint64_t i = 0; i < n; i++) { bytes.push_back(mkVar(8, nm + "[" + std::to_string(i) + "]")); setByte(o, (p & 0xffffffff) + i, bytes[i]); }
    inputs.push_back({nm, bytes});
}
BI(h_choice) {
    uint64_t n = U(0); std::string nm = uniq(readCStr(U(1)));
    E v = mkVar(32, nm); std::vector<E> bytes; for (int i = 0; i < 4; i++) bytes.push_back(mkExtract(v, i * 8, 8));
    inputs.push_back({nm, bytes});
    assume(mkCmp(K::Ult, v, mkConst(32, n)));
    for (uint64_t i = 0; i + 1 < n; i++) if (decide(mkEq(v, mkConst(32, i)))) { retVal = VC(i); return; }
    retVal = VC(n - 1);
}
static E condE(const Val &v, unsigned w) { if (!v.e) return mkBool((v.c & maskw(w)) != 0); return mkNot(mkEq(v.e, mkConst(v.e->w, 0))); }
BI(h_assume) {
    E c = condE(a[0], 32);
    if (isTrue(c)) return;
    if (!maySat(c)) { SH->pathsCut++; finishPath(0); }
    assume(c);
}
BI(h_assert) {
    E c = condE(a[0], 32); SH->asserts++;
    if (isTrue(c)) { return; }
    if (c->isConst()) { std::string m = readCStr(U(1)); violation("assert", m); }
    std::string m = readCStr(U(1));
    auto cs = slice(c); cs.push_back(mkNot(c));
    Model mm; SH->assertsSolver++;
    Sat r = solve(cs, &mm, true);
    if (r == Sat::unknown) internalError("assertion '%s': solver returned unknown", m.c_str());
    if (r == Sat::sat) { Model fm = fullModel(mkNot(c)); violation("assert", m, &fm, mkNot(c)); }
    assume(c);
}
BI(h_fail) { violation("assert", readCStr(U(0))); }
BI(h_reach) { uint64_t i = U(0); if (i < 64) SH->reach[i]++; }
BI(h_note) { notes.push_back(readCStr(U(0))); }
BI(h_note_u64) { std::string s = readCStr(U(0)); if (isSym(a[1])) s += "=" + exprStr(a[1].e, 20); else s += "=" + std::to_string(a[1].c); notes.push_back(s); if (getenv("EG_NOTES")) fprintf(stderr, "NOTE %s\n", s.c_str()); }
BI(h_def) { auto f = optDefs.find(readCStr(U(0))); retVal = f == optDefs.end() ? a[1] : VC(strtoull(f->second.c_str(), 0, 0)); }
BI(h_symbolic_mode) { retVal = VC(1); }
BI(h_stop) { SH->pathsCut++; finishPath(0); }
BI(h_is_sym) { retVal = VC(isSym(a[0])); }
BI(h_concretize) { retVal = VC(U(0)); }
BI(h_must) { E c = condE(a[0], 32); retVal = VC(isTrue(c) || !maySat(mkNot(c))); }
BI(h_may) { E c = condE(a[0], 32); retVal = VC(isTrue(c) || maySat(c)); }
BI(b_snprintf) {
    uint64_t o = U(0), n = U(1); std::string f = readCStr(U(2)), r; size_t k = 3; std::map<size_t, E> digits; // symbolic characters of r
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { r += f[i]; continue; }
        if (f[i + 1] == '%') { r += '%'; i++; continue; }
        std::string spec = "%"; i++; int lng = 0, shrt = 0, prec = -1;
        while (i < f.size() && (isdigit(f[i]) || f[i] == '-' || f[i] == '#' || f[i] == '+' || f[i] == ' ')) spec += f[i++];
        if (f[i] == '.') { size_t j = i + 1; prec = atoi(f.c_str() + j); while (j < f.size() && isdigit(f[j])) j++; spec += f.substr(i, j - i); i = j; }
        while (i < f.size() && strchr("hlzjt", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') lng++; if (f[i] == 'h') shrt++; i++; }
        if (prec > 0 && (f[i] == 'X' || f[i] == 'x') && k < a.size() && isSym(a[k])) {
            unsigned w = lng ? 64 : shrt == 2 ? 8 : shrt ? 16 : 32; E e = toE(a[k], 64); if (e->w > w) e = mkExtract(e, 0, w); unsigned d = 4 * prec;
            if (e->w < d) e = mkZExt(e, d);
            if (e->w == d || !maySat(mkNot(mkEq(mkExtract(e, d, e->w - d), mkConst(e->w - d, 0))))) {
                for (int q = prec - 1; q >= 0; q--) {
                    E x = mkZExt(mkExtract(e, 4 * q, 4), 8);
                    digits[r.size()] = mkIte(mkCmp(K::Ult, x, mkConst(8, 10)), mkBin(K::Add, x, mkConst(8, '0')), mkBin(K::Add, x, mkConst(8, f[i] - 'X' + 'A' - 10))); r += '?';
                }
                k++; continue;
            }
        }
        char b[128]; uint64_t v = k < a.size() ? concretize(a[k], 64, "printf argument") : 0; k++;
        if (f[i] == 's') { r += readCStr(v); continue; }
        if (f[i] == 'c') { r += (char)v; continue; }
        if (!strchr("diuxXo", f[i])) internalError("snprintf format %s", f.c_str());
        if (!lng) v = (f[i] == 'd' || f[i] == 'i') ? (uint64_t)(int64_t)(int32_t)v : (v & 0xffffffff);
        if (shrt == 2 && f[i] != 'd' && f[i] != 'i') v &= 0xff;
        spec += "l"; spec += f[i]; snprintf(b, sizeof b, spec.c_str(), v); r += b;
    }
    if (n) { size_t m = std::min<size_t>(r.size(), n - 1); for (size_t i = 0; i < m; i++) { auto d = digits.find(i); storeVal(o + i, d != digits.end() ? VE(d->second) : VC((uint8_t)r[i]), 8); } storeVal(o + m, VC(0), 8); }
    retVal = VC(r.size());
}
static E rdWide(uint64_t p, unsigned n) { E r = nullptr; for (unsigned i = 0; i < n; i++) { E l = toE(loadVal(p + 8 * i, 64), 64); r = r ? mkConcat(l, r) : l; } return r; }
static void wrWide(uint64_t p, E e) { for (unsigned i = 0; i < e->w / 64; i++) storeVal(p + 8 * i, VE(mkExtract(e, 64 * i, 64)), 64); }
// (a, na, b, nb, out[na+nb])
BI(h_bn_mul) { unsigned na = U(1), nb = U(3), w = 64 * (na + nb); wrWide(U(4), mkBin(K::Mul, mkZExt(rdWide(U(0), na), w), mkZExt(rdWide(U(2), nb), w))); }
// a product of two unknowns, whatever its packaging
static bool nonlinear(E x) {
    if (x->k == K::Mul) return !x->kids[0]->isConst() && !x->kids[1]->isConst();
    if (x->k == K::Concat || x->k == K::ZExt || x->k == K::Extract) { for (E k : x->kids) if (nonlinear(k)) return true; }
    return false;
}
// (a, na, n, nn, out[nn]): out = a mod n
BI(h_bn_mod) {
    unsigned na = U(1), nn = U(3), w = 64 * std::max(na, nn); E x = mkZExt(rdWide(U(0), na), w), n = mkZExt(rdWide(U(2), nn), w); E r;
    if (x->isConst() && n->isConst()) r = mkBin(K::URem, x, n);
    else {
        // small multiples of the modulus: conditional subtractions; otherwise the remainder as a term
        E n2 = mkBin(K::Add, n, n);
        if (nonlinear(x)) r = mkBin(K::URem, x, n);
        else if (n->isConst() && w > 64 * nn && !maySat(mkNot(mkCmp(K::Ult, x, n2)))) r = mkIte(mkCmp(K::Ult, x, n), x, mkBin(K::Sub, x, n));
        else if (n->isConst() && w > 64 * nn && !maySat(mkNot(mkCmp(K::Ult, x, mkBin(K::Add, n2, n2))))) { E y = mkIte(mkCmp(K::Ult, x, n2), x, mkBin(K::Sub, x, n2)); r = mkIte(mkCmp(K::Ult, y, n), y, mkBin(K::Sub, y, n)); }
        else r = mkBin(K::URem, x, n);
    }
    wrWide(U(4), mkExtract(r, 0, 64 * nn));
}
// exponentiation modulo p as an uninterpreted function (base[64], exp, number of exponent limbs, out[64])
struct PowEnt { E b, e, r; };
static std::vector<PowEnt> pows;
BI(h_bn_powmod) {
    unsigned ne = U(2); E b = rdWide(U(0), 64), e = rdWide(U(1), ne); if (ne < 64) e = mkZExt(e, 4096);
    for (auto &k : pows) if (k.b == b && k.e == e) { wrWide(U(3), k.r); return; }
    for (auto &k : pows) { E eq = mkAnd1(mkEq(k.b, b), mkEq(k.e, e)); if (!isFalse(eq) && decide(eq)) { wrWide(U(3), k.r); return; } }
    E r = mkVar(4096, uniq("powmod")); pows.push_back({b, e, r}); wrWide(U(3), r);
}
// upper-case hexadecimal, leading zero bytes dropped, "00" for zero
BI(h_hex) {
    uint64_t p = U(0), o = U(2); unsigned n = U(1); std::vector<uint64_t> l(n); std::string r; bool on = false; char b[4];
    for (unsigned i = 0; i < n; i++) { Val v = loadVal(p + 8 * i, 64); l[i] = isSym(v) ? concretize(v, 64, "limb of a hexadecimal rendering") : v.e ? v.e->val.getZExtValue() : v.c; }
    for (int i = n * 8 - 1; i >= 0; i--) { unsigned x = (l[i / 8] >> (8 * (i % 8))) & 255; if (x) on = true; if (on) { snprintf(b, 4, "%02X", x); r += b; } }
    if (!on) r = "00";
    for (size_t i = 0; i <= r.size(); i++) storeVal(o + i, VC((uint8_t)r.c_str()[i]), 8);
}
BI(h_secrets) { secretsOn = U(0); if (!secretsOn) secrets.clear(); }
BI(h_secret) {
    uint64_t p = U(0), n = U(1); if (!secretsOn || n < 8) return; std::string nm = readCStr(U(2)), s;
    Obj &o = checkAccess(p, n, false); uint64_t off = p & 0xffffffff;
    for (uint64_t k = 0; k + 8 <= n; k += 8) {
        bool conc = true; if (o.sym) for (int j = 0; j < 8; j++) conc = conc && !o.sym[off + k + j]; if (!conc) continue;
        s.assign((const char *)o.data + off + k, 8); if (s.find_first_not_of('\0') == std::string::npos) continue;
        secrets[s] = nm; secrets[std::string(s.rbegin(), s.rend())] = nm;
    }
}
BI(h_watch_wipe) { uint64_t p = U(0); watches.push_back({(uint32_t)(p >> 32), p & 0xffffffff, U(1), readCStr(U(2))}); }
BI(h_alive) { uint64_t p = U(0); uint32_t id = p >> 32; retVal = VC(id < objs.size() && (objs[id].kind == 1 || objs[id].kind == 2 || objs[id].kind == 3)); }
BI(h_objsize) { uint64_t p = U(0); uint32_t id = p >> 32; retVal = VC(id < objs.size() ? objs[id].size - (p & 0xffffffff) : 0); }
BI(h_print) { fprintf(stderr, "PRINT %s\n", readCStr(U(0)).c_str()); }

// ---------------------------------------------------------------- term layer
static bool atomsMode = false;
static std::vector<uint64_t> rdLimbs(uint64_t p, unsigned n, E *symLimb = nullptr) {
    std::vector<uint64_t> l(n);
    for (unsigned i = 0; i < n; i++) { Val v = loadVal(p + 8 * i, 64); if (isSym(v)) { if (symLimb) *symLimb = v.e; l[i] = 0; } else l[i] = v.e ? v.e->val.getZExtValue() : v.c; }
    return l;
}
static void wrLimbs(uint64_t p, const std::vector<uint64_t> &l) { for (size_t i = 0; i < l.size(); i++) storeVal(p + 8 * i, VC(l[i]), 64); }
// a 4-limb field element from memory: a token, a constant, or symbolic limbs
static Poly rdQ(uint64_t p, unsigned n = 4) {
    bool sym = false; std::vector<E> es;
    for (unsigned i = 0; i < n; i++) { Val v = loadVal(p + 8 * i, 64); sym |= isSym(v); es.push_back(toE(v, 64)); }
    if (!sym) {
        std::vector<uint64_t> l; for (E e : es) l.push_back(e->val.getZExtValue());
        for (unsigned i = 4; i < n; i++) if (l[i]) { // wider than q: reduce as a constant, or an unknown big token
            mpz_class r; mpz_import(r.get_mpz_t(), l.size(), -1, 8, 0, 0, l.data()); return pConst(r % QQ); }
        l.resize(4);
        return fromTokenQ(l);
    }
    // symbolic limbs: concretise limbs with few values, otherwise introduce an indeterminate for the whole number
    for (auto &e : es) if (!e->isConst()) {
        // try: at most 3 values
        std::vector<APInt> vals; E ex = mkBool(true); bool few = false;
        for (int k = 0; k < 4; k++) { Model m; std::vector<E> cs = slice(e); E c = ex; if (!maySat(c)) { few = true; break; }
            cs.push_back(c); // find value under exclusions
            Model mm; Sat r = solve(cs, &mm, false); if (r == Sat::unsat) { few = true; break; } if (r != Sat::sat) internalError("rdQ");
            std::unordered_map<E, APInt> memo; APInt v = evalExpr(e, mm.vals, memo); vals.push_back(v); ex = mkAnd1(ex, mkNot(mkEq(e, mkConst(v))));
            if (k == 3) break; }
        if (few) e = mkConst(64, concretize(VE(e), 64, "limb"));
    }
    bool still = false; for (E e : es) still |= !e->isConst();
    if (!still) { std::vector<uint64_t> l; for (E e : es) l.push_back(e->val.getZExtValue()); l.resize(4); return fromTokenQ(l); }
    // byte by byte, so that code that slices the number reads the same indeterminates
    Poly r; mpz_class f = 1;
    for (E e : es) for (int i = 0; i < 8; i++, f <<= 8) {
        E b = mkExtract(e, 8 * i, 8);
        if (!b->isConst()) { APInt v = someValue(b); if (!maySat(mkNot(mkEq(b, mkConst(v))))) b = mkConst(v); }
        if (b->isConst()) r = pAdd(r, pConst(f * b->val.getZExtValue())); else r = pAdd(r, pScale(pVar("byte#" + std::to_string(b->id)), f % QQ));
    }
    return r;
}
static PElem rdP(uint64_t p) {
    E s = nullptr; auto l = rdLimbs(p, 64, &s);
    if (s) internalError("symbolic limb in a mod-p element");
    return fromTokenP(l);
}
// an element read through a pointer that depends on one unknown byte (a table of powers): when the entries form an
// arithmetic progression of exponents the element is base^(a + d*byte); otherwise the byte is split into its values
static bool byteAtom(E e, E &at) {
    if (e->isConst()) return true;
    if (e->w <= 8) { if (at && at != e) return false; at = e; return true; }
    if (e->k == K::Var) return false;
    for (E k : e->kids) if (!byteAtom(k, at)) return false;
    return true;
}
static E substE(E e, E from, E to, std::unordered_map<E, E> &memo) {
    if (e == from) return to;
    if (e->kids.empty()) return e;
    auto f = memo.find(e); if (f != memo.end()) return f->second;
    std::vector<E> k; for (E x : e->kids) k.push_back(substE(x, from, to, memo));
    E r;
    switch (e->k) {
    case K::Extract: r = mkExtract(k[0], e->lo, e->w); break;
    case K::Concat: r = mkConcat(k[0], k[1]); break;
    case K::ZExt: r = mkZExt(k[0], e->w); break;
    case K::SExt: r = mkSExt(k[0], e->w); break;
    case K::Eq: r = mkEq(k[0], k[1]); break;
    case K::Ult: case K::Slt: case K::Ule: case K::Sle: r = mkCmp(e->k, k[0], k[1]); break;
    case K::Ite: r = mkIte(k[0], k[1], k[2]); break;
    default: r = mkBin(e->k, k[0], k[1]);
    }
    return memo[e] = r;
}
static Poly byteVar(E e) { return pVar("byte#" + std::to_string(e->id)); }
static bool affineP(const Val &ptr, PElem &out) {
    E at = nullptr;
    if (!isSym(ptr) || !byteAtom(ptr.e, at) || !at) return false;
    unsigned n = 1u << at->w; std::vector<PElem> es(n); std::vector<char> ok(n, 0);
    for (unsigned v = 0; v < n; v++) {
        std::unordered_map<E, E> memo; E q = substE(ptr.e, at, mkConst(at->w, v), memo);
        if (!q->isConst()) return false;
        uint64_t p = q->val.getZExtValue(); uint32_t id = p >> 32;
        if (id == 0 || id >= objs.size() || objs[id].kind == 0 || objs[id].kind == 4 || (p & 0xffffffff) + 512 > objs[id].size) continue;
        E s = nullptr; auto l = rdLimbs(p, 64, &s); if (s) return false;
        es[v] = fromTokenP(l); ok[v] = !es[v].zero;
    }
    if (n < 4 || !ok[1] || !ok[2]) return false;
    Poly d = pSub(es[2].e, es[1].e), base = pSub(es[1].e, d), cur = base; E excl = mkBool(true);
    for (unsigned v = 0; v < n; v++, cur = pAdd(cur, d)) if (!ok[v] || !(es[v].e == cur)) excl = mkAnd1(excl, mkNot(mkEq(at, mkConst(at->w, v))));
    if (!isTrue(excl) && maySat(mkNot(excl))) return false;
    gPolyIdentities++;
    out.zero = false; out.e = pAdd(base, pMul(d, byteVar(at))); return true;
}
static bool affineCopy(uint64_t d, const Val &src, uint64_t n) { PElem e; if (n != 512 || !affineP(src, e)) return false; wrLimbs(d, tokenP(e)); return true; }
static PElem rdPv(const Val &v) { PElem r; if (isSym(v) && affineP(v, r)) return r; return rdP(concretize(v, 64, "element pointer")); }
static void wrQ(uint64_t p, const Poly &q) { wrLimbs(p, tokenQ(q)); }
static void wrP(uint64_t p, const PElem &q) { wrLimbs(p, tokenP(q)); }
BI(t_set_g) { E s = nullptr; registerG(rdLimbs(U(0), 64, &s)); }
BI(t_atoms) { atomsMode = U(0); }
BI(t_qvar) { std::string n = uniq(readCStr(U(1))); wrQ(U(0), pVar(n)); }
BI(t_pvar) { std::string n = uniq(readCStr(U(1))); PElem e; e.e = pVar(n); wrP(U(0), e); }
BI(t_qadd) { wrQ(U(2), pAdd(rdQ(U(0)), rdQ(U(1)))); }
BI(t_qsub) { wrQ(U(2), pSub(rdQ(U(0)), rdQ(U(1)))); }
BI(t_qmul) { wrQ(U(2), pMul(rdQ(U(0)), rdQ(U(1)))); }
// integers modulo p: an element below 2^256 that holds a field token, or a product of such, is exponent data rather than a group element
static std::map<std::vector<uint64_t>, Poly> tokI;
static mpz_class gP;
static bool asInt(const std::vector<uint64_t> &l, Poly &out, bool &isConst) {
    auto f = tokI.find(l); if (f != tokI.end()) { out = pSubst(f->second); isConst = false; return true; }
    for (unsigned i = 4; i < 64; i++) if (l[i]) return false;
    std::vector<uint64_t> q(l.begin(), l.begin() + 4);
    isConst = !isKnownTokenQ(q); out = fromTokenQ(q); return true;
}
static mpz_class limbsZ(const std::vector<uint64_t> &l) { mpz_class r; mpz_import(r.get_mpz_t(), l.size(), -1, 8, 0, 0, l.data()); return r; }
BI(t_set_p) { E s = nullptr; gP = limbsZ(rdLimbs(U(0), 64, &s)); }
BI(t_pmul) {
    for (int i = 0; i < 2; i++) if (isSym(a[i])) { PElem x; if (affineP(a[i], x)) { PElem y = rdPv(a[1 - i]), r; if (y.zero) r.zero = true; else r.e = pAdd(x.e, y.e); wrP(U(2), r); return; } }
    E s = nullptr; auto la = rdLimbs(U(0), 64, &s), lb = rdLimbs(U(1), 64, &s); Poly ia, ib; bool ca, cb;
    if (s) internalError("symbolic limb in a mod-p element");
    std::vector<uint64_t> one(64, 0); one[0] = 1;
    if (la == one) { wrLimbs(U(2), lb); return; }
    if (lb == one) { wrLimbs(U(2), la); return; }
    if (asInt(la, ia, ca) && asInt(lb, ib, cb)) {
        if (ca && cb && gP != 0) { mpz_class r = limbsZ(la) * limbsZ(lb) % gP; std::vector<uint64_t> l(64, 0); size_t cnt; mpz_export(l.data(), &cnt, -1, 8, 0, 0, r.get_mpz_t()); wrLimbs(U(2), l); return; }
        if ((ca && limbsZ(la) == 0) || (cb && limbsZ(lb) == 0)) { wrLimbs(U(2), std::vector<uint64_t>(64, 0)); return; }
        Poly r = pMul(ia, ib); std::vector<uint64_t> l; std::string st = pStr(r);
        for (int i = 0; i < 16; i++) { uint64_t h[4]; hash256("I" + std::to_string(i) + ":" + st, h); l.insert(l.end(), h, h + 4); }
        l[63] = (l[63] & 0x00ffffffffffffffULL) | 0x0100000000000000ULL; tokI[l] = r; wrLimbs(U(2), l); return;
    }
    PElem p = rdP(U(0)), q = rdP(U(1)), r; if (p.zero || q.zero) r.zero = true; else r.e = pAdd(p.e, q.e); wrP(U(2), r); }
BI(t_pinv) { PElem p = rdP(U(0)), r; if (p.zero) internalError("inverse of zero"); r.e = pSub(Poly(), p.e); wrP(U(1), r); }
// base, exponent limbs, number of exponent limbs, out
BI(t_ppow) {
    PElem p = rdP(U(0)), r; unsigned n = U(2); uint64_t ep = U(1); Poly e;
    if (n <= 4) e = rdQ(ep, n); else {
        E s = nullptr; auto l = rdLimbs(ep, n, &s); if (s) for (unsigned i = 4; i < n; i++) if (isSym(loadVal(ep + 8 * i, 64))) internalError("symbolic wide exponent");
        bool hi = false; for (unsigned i = 4; i < n; i++) hi |= l[i] != 0;
        if (tokI.count(l)) e = pSubst(tokI[l]);
        else if (!hi) { e = rdQ(ep, 4); }
        else { mpz_class c; mpz_import(c.get_mpz_t(), l.size(), -1, 8, 0, 0, l.data());
            PElem asP = fromTokenP(l); bool opaque = asP.e.t.size() == 1 && asP.e.t.begin()->first.size() == 1 && termVarName(asP.e.t.begin()->first[0].first).rfind("dlog:", 0) == 0;
            e = opaque ? pConst(c % QQ) : pVar("int(" + pStr(asP.e) + ")"); }
    }
    if (p.zero) r.zero = !(e.t.empty()); else r.e = pMul(p.e, e);
    wrP(U(3), r);
}
static bool ask(const std::string &s) { SH->atomsAsked++; E v = mkVar(1, "atom{" + s + "}"); (void)v; return forkState(); }
static bool zeroPoly(const Poly &d) { bool r = pDecideZero(d, atomsMode, ask); if (gTermsInfeasible) { SH->pathsCut++; finishPath(0); } return r; }
BI(t_qeq) { Poly d = pSub(rdQ(U(0)), rdQ(U(1))); retVal = VC(zeroPoly(d)); }
BI(t_peq) { PElem p = rdP(U(0)), q = rdP(U(1)); if (p.zero || q.zero) { retVal = VC(p.zero == q.zero); return; } retVal = VC(zeroPoly(pSub(p.e, q.e))); }
// facts about an element: constants are compared with the modulus; a term is a residue unless it was built from a
// variable declared to lie outside the subgroup
BI(t_flag) { // (tag, limbs, n) -> 0/1
    std::string tag = readCStr(U(0)); unsigned n = U(2); E s = nullptr; auto l = rdLimbs(U(1), n, &s);
    if (s) internalError("symbolic limb in an element");
    if (n == 4) { retVal = VC(isKnownTokenQ(l) ? 1 : limbsZ(l) < QQ); return; }
    PElem e = fromTokenP(l);
    if (e.zero) { retVal = VC(tag == "inbounds"); return; }
    bool tok = isKnownTokenP(l), opaque = false, nr = false;
    for (auto &k : e.e.t) for (auto &v : k.first) { auto &nm = termVarName(v.first); if (nm.rfind("nr:", 0) == 0) nr = true; if (nm.rfind("dlog:", 0) == 0) opaque = true; }
    if (tag == "inbounds") { retVal = VC(tok ? 1 : gP == 0 || limbsZ(l) < gP); return; }
    if (nr) { retVal = VC(0); return; }
    if (opaque && gP != 0 && !tok) { mpz_class v = limbsZ(l), r; mpz_powm(r.get_mpz_t(), v.get_mpz_t(), QQ.get_mpz_t(), gP.get_mpz_t()); retVal = VC(v < gP && r == 1); return; }
    retVal = VC(1);
}
BI(t_pvar_nr) { std::string n = uniq(readCStr(U(1))); PElem e; e.e = pVar(U(2) ? "nr:" + n : n); wrP(U(0), e); }
BI(t_str) { uint64_t p = U(0); unsigned n = U(1); std::string s = n == 64 ? "g^(" + pStr(rdP(p).e) + ")" : pStr(rdQ(p)); std::string nm = readCStr(U(2)); notes.push_back(nm + " = " + s); if (getenv("EG_NOTES")) fprintf(stderr, "TERM %s = %s\n", nm.c_str(), s.c_str()); }
BI(t_isconst) { uint64_t p = U(0); retVal = VC(rdQ(p).isConst()); }
// uninterpreted hash: (tag, ptr, n, out32)
struct HashEnt { std::string tag, name; std::vector<E> in; std::string concrete; bool sym; std::vector<uint8_t> out; };
static std::vector<HashEnt> hashes;
static std::map<std::string, int> hashIdx;
BI(t_hash) {
    std::string tag = readCStr(U(0)); uint64_t p = U(1), n = U(2), out = U(3); SH->hashCalls++;
    HashEnt h; h.tag = tag; h.sym = false;
    if (n) {
        Obj &o = checkAccess(p, n, false); uint64_t off = p & 0xffffffff;
        for (uint64_t i = 0; i < n; i++) { E e = byteE(o, off + i); if (!e->isConst()) h.sym = true; h.in.push_back(e); }
    }
    std::string key = tag + ":";
    for (E e : h.in) { if (e->isConst()) { key += 'c'; key += (char)e->val.getZExtValue(); } else { key += 's'; key.append((const char *)&e->id, 4); } }
    auto put = [&](const HashEnt &r) { Obj &o = checkAccess(out, 32, true); uint64_t off = out & 0xffffffff; for (int i = 0; i < 32; i++) setByte(o, off + i, mkConst(8, r.out[i])); };
    auto f = hashIdx.find(key);
    if (f != hashIdx.end()) { hashLog.push_back(hashes[f->second].name); put(hashes[f->second]); return; }
    // may the input coincide with an earlier one?
    for (size_t k = 0; k < hashes.size(); k++) {
        if (hashes[k].tag != tag || hashes[k].in.size() != h.in.size()) continue;
        if (!h.sym && !hashes[k].sym) continue;
        E eq = mkBool(true);
        for (size_t i = 0; i < h.in.size() && !isFalse(eq); i++) eq = mkAnd1(eq, mkEq(h.in[i], hashes[k].in[i]));
        if (isFalse(eq)) continue;
        if (decide(eq)) { hashIdx[key] = k; hashLog.push_back(hashes[k].name); put(hashes[k]); return; }
    }
    std::string nm = "H:" + tag;
    uint64_t hh[4]; hash256(key, hh); char b[40]; snprintf(b, 40, "%016lx%016lx", hh[0], hh[1]); nm += b;
    Poly v = pVar(nm); auto l = tokenQ(v);
    h.out.resize(32);
    for (int i = 0; i < 32; i++) h.out[31 - i] = l[i / 8] >> (8 * (i % 8)); // big endian
    h.name = nm; hashLog.push_back(nm); hashIdx[key] = hashes.size(); hashes.push_back(h); put(hashes.back());
    if (getenv("EG_HASH")) { std::string s; for (E e : h.in) s += e->isConst() ? (char)e->val.getZExtValue() : '?'; fprintf(stderr, "HASH %s <- %s\n", nm.c_str(), s.c_str()); }
}

#include "threads.inc"
static void registerBuiltins() {
    auto &B = builtins;
    B["powl"] = [](Inst &x, std::vector<Val> &a, Fn *f) { uint64_t b = U(0), e = U(1), r = 1; if (e > 18) internalError("powl"); while (e--) r *= b; retVal = VC(r); };
    B["malloc"] = b_malloc; B["calloc"] = b_calloc; B["free"] = b_free; B["realloc"] = b_realloc; B["aligned_alloc"] = [](Inst &x, std::vector<Val> &a, Fn *f) { retVal = VC(allocObj(U(1), 1)); };
    B["_Znwm"] = b_new; B["_ZnwmRKSt9nothrow_t"] = b_new; B["_Znam"] = b_newarr; B["_ZnamRKSt9nothrow_t"] = b_newarr; B["_ZnwmSt11align_val_t"] = b_new;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B[n] = b_delete;
    for (auto n : {"_ZdaPv", "_ZdaPvm"}) B[n] = b_deletearr;
    B["memcpy"] = B["memmove"] = b_memcpy; B["memset"] = b_memset; B["memcmp"] = B["bcmp"] = b_memcmp; B["strlen"] = b_strlen; B["memchr"] = b_memchr; B["strcmp"] = B["strncmp"] = b_strcmp;
    B["explicit_bzero"] = B["bzero"] = b_bzero;
    B["abort"] = B["_ZSt9terminatev"] = B["exit"] = b_abort; B["__assert_fail"] = b_assertfail; B["__cxa_pure_virtual"] = b_pure;
    B["__cxa_allocate_exception"] = b_cxa_alloc; B["__cxa_free_exception"] = b_cxa_freeexc; B["__cxa_throw"] = b_cxa_throw; B["__cxa_begin_catch"] = b_cxa_begin; B["__cxa_end_catch"] = b_cxa_end; B["__cxa_rethrow"] = b_cxa_rethrow;
    B["__cxa_guard_acquire"] = b_guard_acquire; B["__cxa_guard_release"] = b_guard_release; B["__cxa_guard_abort"] = b_guard_abort; B["eg_threads"] = h_threads; B["eg_preemptions"] = h_preemptions; B["pthread_mutex_lock"] = B["pthread_rwlock_wrlock"] = b_mutex_lock; B["pthread_mutex_unlock"] = B["pthread_rwlock_unlock"] = b_mutex_unlock; B["pthread_rwlock_rdlock"] = b_rdlock; B["pthread_mutex_trylock"] = b_trylock; B["__cxa_atexit"] = B["atexit"] = B["__cxa_thread_atexit"] = b_zero; B["__dynamic_cast"] = b_dynamic_cast;
    B["_ZSt18uncaught_exceptionv"] = B["_ZSt19uncaught_exceptionsv"] = b_zero;
    for (auto n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_init", "pthread_cond_destroy", "sched_yield", "printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fwrite", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev"}) B[n] = b_zero;
    B["pthread_self"] = b_one; B["_ZNSt6thread20hardware_concurrencyEv"] = [](Inst &, std::vector<Val> &, Fn *) { retVal = VC(8); }; B["time"] = b_time; B["_ZNSt6chrono3_V212system_clock3nowEv"] = B["_ZNSt6chrono3_V212steady_clock3nowEv"] = b_clock_now;
    B["eg_sym"] = h_sym; B["eg_sym_bytes"] = h_sym_bytes; B["eg_choice"] = h_choice; B["eg_assume"] = h_assume; B["eg_assert"] = h_assert; B["eg_fail"] = h_fail; B["eg_reach"] = h_reach; B["eg_note"] = h_note; B["eg_note_u64"] = h_note_u64; B["eg_def"] = h_def; B["eg_symbolic_mode"] = h_symbolic_mode; B["eg_stop"] = h_stop; B["eg_is_sym"] = h_is_sym; B["eg_concretize"] = h_concretize; B["eg_watch_wipe"] = h_watch_wipe; B["eg_secrets"] = h_secrets; B["eg_secret"] = h_secret; B["eg_alive"] = h_alive; B["eg_objsize"] = h_objsize; B["eg_print"] = h_print;
    B["eg_t_set_g"] = t_set_g; B["eg_t_atoms"] = t_atoms; B["eg_t_set_p"] = t_set_p; B["eg_t_pvar_nr"] = t_pvar_nr; B["eg_t_qvar"] = t_qvar; B["eg_t_pvar"] = t_pvar; B["eg_t_qadd"] = t_qadd; B["eg_t_qsub"] = t_qsub; B["eg_t_qmul"] = t_qmul; B["eg_t_pmul"] = t_pmul; B["eg_t_pinv"] = t_pinv; B["eg_t_ppow"] = t_ppow; B["eg_t_qeq"] = t_qeq; B["eg_t_peq"] = t_peq; B["eg_t_flag"] = t_flag; B["eg_t_str"] = t_str; B["eg_t_isconst"] = t_isconst; B["eg_t_hash"] = t_hash;
    B["eg_must"] = h_must; B["eg_may"] = h_may; B["eg_hex"] = h_hex; B["snprintf"] = b_snprintf; B["eg_bn_mul"] = h_bn_mul; B["eg_bn_mod"] = h_bn_mod; B["eg_bn_powmod"] = h_bn_powmod;
    
}
