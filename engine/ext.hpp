// External functions: harness intrinsics, libc/libstdc++ models, native calls through libffi.
static std::unordered_map<std::string, Handler> exactH; static std::vector<std::pair<std::string, Handler>> prefixH; static std::unordered_map<std::string, Handler> lookCache;
static Handler findHandler(const std::string &n) {
  auto it = lookCache.find(n); if (it != lookCache.end()) return it->second; Handler h = nullptr; auto e = exactH.find(n); if (e != exactH.end()) h = e->second; else for (auto &p : prefixH) if (n.rfind(p.first, 0) == 0) { h = p.second; break; }
  lookCache[n] = h; return h; }
static std::set<std::string> nativeSeen;
#define H(nm) static St nm(CallCtx &c)
static St retv(CallCtx &c, Val v) { c.ret[0] = v; return OK; }
static std::string cstr(u64 p) { return p ? std::string((const char *)p) : ""; }
// ---- harness intrinsics
static u64 symSeq = 0; static u64 cfgRandSym = 0; static u64 cfgCores = 2; static int cfgThreadMode = 0;
static void nospec(CallCtx &) { specFail("intrinsic"); }
static Node *newVar(bool f, u32 w, u64 seq, u64 i) { return X.var("v" + std::to_string(seq) + "_" + std::to_string(i), f, w); }
H(h_symf32) { nospec(c); u64 p = CI(c.a[0]), n = CI(c.a[1]), q = symSeq++; if (!addrOK(p, n * 4)) oob(p, n * 4, "sym"); for (u64 i = 0; i < n; i++) storeRaw(p + 4 * i, 4, VN(newVar(true, 32, q, i)), true); return OK; }
H(h_symf64) { nospec(c); u64 p = CI(c.a[0]), n = CI(c.a[1]), q = symSeq++; if (!addrOK(p, n * 8)) oob(p, n * 8, "sym"); for (u64 i = 0; i < n; i++) storeRaw(p + 8 * i, 8, VN(newVar(true, 64, q, i)), true); return OK; }
H(h_symbytes) { nospec(c); u64 p = CI(c.a[0]), n = CI(c.a[1]), q = symSeq++; if (!addrOK(p, n)) oob(p, n, "sym"); for (u64 i = 0; i < n; i++) storeRaw(p + i, 1, VN(newVar(false, 8, q, i)), false); return OK; }
H(h_symu64) { nospec(c); u64 lo = CI(c.a[0]), hi = CI(c.a[1]); Node *v = newVar(false, 64, symSeq++, 0); Node *r = v; if (!(lo == 0 && hi == ~0ull)) { pcAdd(X.cmp(ULE, X.bv(lo, 64), v)); pcAdd(X.cmp(ULE, v, X.bv(hi, 64))); } return retv(c, VN(r)); }
H(h_choose) { nospec(c); u64 lo = CI(c.a[0]), hi = CI(c.a[1]); Node *v = newVar(false, 64, symSeq++, 0); pcAdd(X.cmp(ULE, X.bv(lo, 64), v)); pcAdd(X.cmp(ULE, v, X.bv(hi, 64))); return retv(c, VC(concretize(v, 100000))); }
H(h_concretize) { return retv(c, VC(CI(c.a[0]))); }
H(h_modefp) { nospec(c); X.realMode = false; delete pcS; delete pcTr; pcTr = new Tr(*ZC, false); pcS = new z3::solver(*ZC); z3::params p(*ZC); p.set("rlimit", 20000000u); pcS->set(p); pcSide = 0; return OK; }
H(h_assume) { nospec(c); Node *n = N(c.a[0], Type::getInt1Ty(LC)); if (n->w != 1) n = X.bnot(X.cmp(EQ, n, X.bv(0, n->w))); if (n->op == CONST) { if (!n->k) pathEnd(); return OK; } if (!feasible(n)) pathEnd(); pcAdd(n); return OK; }
static void countAssert(const std::string &l, Res r) { SH->asserts++; SH->h[curH].asserts++; labelCell(l)++; if (r == R_UNSAT) { SH->unsat++; SH->h[curH].unsat++; } else if (r == R_SAT) { SH->sat++; SH->h[curH].sat++; } else { SH->unknown++; SH->h[curH].unknown++; } }
static std::map<std::string, int> candCount;
static void vacuity(Tr &tr, std::vector<z3::expr> cs, const std::string &label) { if (solve(cs, tr, nullptr, 6000) == R_UNSAT) inconclusive(label, "vacuous: assumptions unsatisfiable"); }
static bool precUsed = false;
// decide pc && side && neg
static Res decide(Tr &tr, const z3::expr &neg, const std::vector<z3::expr> &extra, const std::string &label, const std::string &info, const z3::expr *strongNeg, const z3::expr *strongScale = nullptr) {
  std::vector<z3::expr> cs = pcExprs(tr); for (auto &s : tr.side) cs.push_back(s); for (auto &e : extra) cs.push_back(e); auto base = cs; cs.push_back(neg);
  std::string m; Res r = solve(cs, tr, &m, solverMs);
  if (r == R_SAT) { std::string m2; auto c2 = base; for (auto &b : niceBounds(tr)) c2.push_back(b); auto c3 = c2; c3.push_back(strongNeg ? *strongNeg > ZC->real_val(1, 8) || *strongNeg < ZC->real_val(-1, 8) : neg);
    if (strongNeg) { // constants folded or truncated to a machine format: agreement to 1e-4 on the box [-3,3] is agreement
      auto c4 = c2; z3::expr bnd = strongScale ? ZC->real_val(1, 10000) * (1 + *strongScale) : ZC->real_val(1, 10000); c4.push_back(*strongNeg > bnd || *strongNeg < -bnd); if (solve(c4, tr, nullptr, solverMs / 2) == R_UNSAT) { logline("{\"t\":\"weak\",\"h\":\"" + jesc(curHName) + "\",\"label\":\"" + jesc(label) + "\"}"); return R_UNSAT; } }
    c2.push_back(neg); if (solve(c3, tr, &m2, solverMs / 3) == R_SAT) m = m2; else if (strongNeg && (c3 = base, c3.push_back(*strongNeg > ZC->real_val(1, 8) || *strongNeg < ZC->real_val(-1, 8)), solve(c3, tr, &m2, solverMs / 3) == R_SAT)) m = m2; else if (solve(c2, tr, &m2, solverMs / 3) == R_SAT) m = m2;
    if (precUsed && tr.real) { auto c5 = base; c5.push_back(neg); u64 h = 99; for (auto &v : X.vars) if (v.isF && tr.usedVars.count(v.n->k)) { h = h * 6364136223846793005ull + 1442695040888963407ull; c5.push_back(ZC->real_const(v.key.c_str()) == ZC->real_val((int)((h >> 33) % 200003) * 2 + 1, 70001)); } if (solve(c5, tr, &m2, solverMs / 3) == R_SAT) m = m2; }
    writeCand("assert", label, m, info); }
  else if (r == R_UNK) { // look for a counterexample with the solver restricted to small boxes of inputs; never counted as success
    if (tr.real) { auto c2 = base; c2.push_back(neg); u64 h = 12345; for (auto &v : X.vars) if (v.isF && tr.usedVars.count(v.n->k)) { h = h * 6364136223846793005ull + 1442695040888963407ull; int q = (int)((h >> 33) % 25) - 12; c2.push_back(ZC->real_const(v.key.c_str()) == ZC->real_val(q * 2 + 1, 8)); } if (solve(c2, tr, &m, solverMs / 3) == R_SAT) { writeCand("assert", label, m, info + " (solver unknown on the full box; restricted query satisfiable)"); } }
    inconclusive(label, "solver returned unknown within the budget: " + info.substr(0, 300)); }
  return r;
}
H(h_assert) {
  nospec(c); std::string label = cstr(CI(c.a[1])); Node *n = N(c.a[0], Type::getInt1Ty(LC)); if (n->w != 1) n = X.bnot(X.cmp(EQ, n, X.bv(0, n->w)));
  Tr tr(*ZC, X.realMode); Res r; try { z3::expr e = !tr.B(n); r = decide(tr, e, {}, label, whereStr().substr(0, 200), nullptr); } catch (Unsupported &u) { inconclusive(label, u.what); r = R_UNK; }
  countAssert(label, r); if (n->op == CONST) { if (!n->k) { SH->h[curH].paths++; SH->paths++; pathEnd(); } return OK; } if (r != R_UNSAT) { if (!feasible(n)) { SH->h[curH].paths++; SH->paths++; pathEnd(); } pcAdd(n); } return OK; }
static void eqLoop(CallCtx &c, u32 w, bool fl) {
  nospec(c); u64 pa = CI(c.a[0]), pb = CI(c.a[1]), n = CI(c.a[2]); std::string label = cstr(CI(c.a[3])); u32 by = w / 8; if (!addrOK(pa, n * by)) oob(pa, n * by, "read"); if (!addrOK(pb, n * by)) oob(pb, n * by, "read");
  if (n == 0) inconclusive(label, "empty comparison");
  Tr tr(*ZC, X.realMode); bool bad = false;
  for (u64 i = 0; i < n; i++) {
    Val a = loadRaw(pa + i * by, by, fl, w), b = loadRaw(pb + i * by, by, fl, w); Node *x = a.s ? a.s : fl ? X.fbits(a.c, w) : X.bv(a.c, w), *y = b.s ? b.s : fl ? X.fbits(b.c, w) : X.bv(b.c, w); Res r;
    if (bad) { break; }
    if (fl && X.realMode && !a.s && !b.s) { // both concrete: rounding-level agreement
      double p = bitsToD(a.c, w), q = bitsToD(b.c, w); bool ok = p == q || fabs(p - q) <= 1e-5 * std::max(1.0, std::max(fabs(p), fabs(q))); if (ok) y = x; }
    try { z3::expr e = tr.eqv(x, y); z3::expr ng = !e; std::unique_ptr<z3::expr> sn, sc; if (fl && X.realMode) { try { z3::expr ra = tr.asReal(tr.frac(x)), rb = tr.asReal(tr.frac(y)); sn.reset(new z3::expr(ra - rb)); sc.reset(new z3::expr(z3::abs(ra) + z3::abs(rb))); } catch (Unsupported &) {} }
      r = decide(tr, ng, {}, label, "element " + std::to_string(i) + " of " + std::to_string(n) + ": got " + show(x, 4).substr(0, 200) + " expected " + show(y, 4).substr(0, 200), sn.get(), sc.get()); } catch (Unsupported &u) { inconclusive(label, u.what); r = R_UNK; }
    countAssert(label, r); if (r == R_SAT) bad = true; if (r == R_UNK && X.realMode) bad = true;
  }
}
H(h_eqf32) { eqLoop(c, 32, true); return OK; } H(h_eqf64) { eqLoop(c, 64, true); return OK; } H(h_equ8) { eqLoop(c, 8, false); return OK; } H(h_equ64) { eqLoop(c, 64, false); return OK; }
static void cmpAtoms(Node *n, std::unordered_set<u32> &seen, std::vector<Node *> &out) { if (!seen.insert(n->id).second) return; if (n->op == FLT || n->op == FLE || n->op == FEQ) out.push_back(n); for (int i = 0; i < n->n; i++) cmpAtoms(n->a[i], seen, out); }
static void gradLoop(CallCtx &c, u32 w) {
  nospec(c); u64 po = CI(c.a[0]), pg = CI(c.a[1]), no = CI(c.a[2]), px = CI(c.a[3]), pr = CI(c.a[4]), nx = CI(c.a[5]); std::string label = cstr(CI(c.a[6])); u32 by = w / 8;
  auto chk = [&](u64 p, u64 n) { if (!addrOK(p, n)) oob(p, n, "read"); }; chk(po, no * by); chk(pg, no * by); chk(px, nx * by); chk(pr, nx * by);
  auto L = [&](u64 p) { Val v = loadRaw(p, by, true, w); return v.s ? v.s : X.fbits(v.c, w); };
  std::vector<Node *> outs; Diff d; std::unordered_set<u32> seen; std::vector<Node *> at;
  try { for (u64 i = 0; i < no; i++) { Node *o = L(po + i * by); outs.push_back(o); cmpAtoms(o, seen, at); if (o->op != CONST) d.acc(o, L(pg + i * by)); } for (Node *n : pc) cmpAtoms(n, seen, at); d.run(); } catch (Unsupported &u) { inconclusive(label, u.what); countAssert(label, R_UNK); return; }
  Tr tr(*ZC, true); std::vector<z3::expr> smooth; for (Node *n : at) { try { z3::expr a = tr.asReal(tr.frac(n->a[0])), b = tr.asReal(tr.frac(n->a[1])); smooth.push_back(a != b); } catch (Unsupported &) {} }
  bool any = false;
  for (u64 j = 0; j < nx; j++) {
    Node *x = L(px + j * by); if (x->op != VAR) { inconclusive(label, "gradient input is not a variable: " + show(x, 3)); countAssert(label, R_UNK); return; }
    auto it = d.done.find(x->id); Node *ref = it == d.done.end() ? X.fconst(0, w) : it->second; Node *got = L(pr + j * by); Res r;
    try { z3::expr e = tr.eqv(got, ref); std::unique_ptr<z3::expr> sn, sc; try { z3::expr ra = tr.asReal(tr.frac(got)), rb = tr.asReal(tr.frac(ref)); sn.reset(new z3::expr(ra - rb)); sc.reset(new z3::expr(z3::abs(ra) + z3::abs(rb))); } catch (Unsupported &) {}
      r = decide(tr, !e, smooth, label, "d/dx[" + std::to_string(j) + "]: got " + show(got, 5).substr(0, 300) + " expected " + show(ref, 5).substr(0, 300), sn.get(), sc.get()); } catch (Unsupported &u) { inconclusive(label, u.what); r = R_UNK; }
    countAssert(label, r); any = true; if (r != R_UNSAT) break;
  }
  if (any) { std::vector<z3::expr> cs = pcExprs(tr); for (auto &s : tr.side) cs.push_back(s); for (auto &e : smooth) cs.push_back(e); vacuity(tr, cs, label); }
}
H(h_gradf32) { gradLoop(c, 32); return OK; } H(h_gradf64) { gradLoop(c, 64); return OK; }
H(h_failalloc) { failAt = (i64)CI(c.a[0]); allocCount = 0; return OK; }
H(h_alloccap) { heapCap = CI(c.a[0]); if (heapCap == 0) heapCap = 16ull << 30; return OK; }
H(h_live) { return retv(c, VC(liveBytes)); }
H(h_isblock) { u64 p = CI(c.a[0]), n = CI(c.a[1]); return retv(c, VC(addrOK(p, n))); }
static i64 termCols = 80; H(h_term) { termCols = (i32)CI(c.a[0]); return OK; }
H(h_ioctl) { specFail("ioctl"); if (CI(c.a[1]) != 0x5413 || termCols < 0) return retv(c, VC(0xFFFFFFFFu)); u64 p = CI(c.a[2]); if (!addrOK(p, 8)) oob(p, 8, "write"); storeRaw(p, 8, VC((u64)(termCols & 0xFFFF) << 16 | 24), false); return retv(c, VC(0)); }
H(h_cores) { cfgCores = CI(c.a[0]); return OK; } H(h_tmode) { cfgThreadMode = CI(c.a[0]); return OK; } H(h_randsym) { cfgRandSym = CI(c.a[0]); return OK; }
H(h_print) { nospec(c); Val v = loadRaw(CI(c.a[0]), 4, true, 32); fprintf(stderr, "PRINT %s: %s\n", cstr(CI(c.a[1])).c_str(), v.s ? show(v.s, 8).c_str() : std::to_string(bitsToD(v.c, 32)).c_str()); return OK; }
H(h_end) { SH->instrs += instrCount; witness(); SH->h[curH].paths++; SH->paths++; pathEnd(); }
// ---- memory
static St throwNative(void *obj, const std::type_info &ti) { specFail("throw"); pending.obj = (u64)obj; pending.tinfo = (u64)&ti; return UNWIND; }
static bool allocFails(u64 n) { allocCount++; if (failAt >= 0 && (i64)allocCount > failAt) { failAt = -1; return true; } return n > (8ull << 30) || liveBytes + n > heapCap; }
static Node *rsz(Node *n) { return n; }
static u64 sizeArg(const Val &v) { if (!v.s) return v.c; specFail("alloc"); return concretize(rsz(v.s), 64); }
H(h_malloc) { specFail("malloc"); u64 n = sizeArg(c.a[0]); if (allocFails(n)) return retv(c, VC(0)); return retv(c, VC(heapAlloc(n, 16))); }
H(h_calloc) { specFail("calloc"); u64 n = sizeArg(c.a[0]) * sizeArg(c.a[1]); if (allocFails(n)) return retv(c, VC(0)); u64 p = heapAlloc(n, 16); if (n <= (1 << 20)) memset((void *)p, 0, n); return retv(c, VC(p)); }
H(h_new) { specFail("new"); u64 n = sizeArg(c.a[0]); if (allocFails(n)) return throwNative(new std::bad_alloc, typeid(std::bad_alloc)); return retv(c, VC(heapAlloc(n, 16))); }
H(h_newal) { specFail("new"); u64 n = sizeArg(c.a[0]), al = CI(c.a[1]); if (allocFails(n)) return throwNative(new std::bad_alloc, typeid(std::bad_alloc)); return retv(c, VC(heapAlloc(n, al))); }
H(h_newnt) { specFail("new"); u64 n = sizeArg(c.a[0]); if (allocFails(n)) return retv(c, VC(0)); return retv(c, VC(heapAlloc(n, 16))); }
H(h_aalloc) { specFail("new"); u64 al = CI(c.a[0]), n = sizeArg(c.a[1]); if (allocFails(n)) return retv(c, VC(0)); return retv(c, VC(heapAlloc(n, al))); }
H(h_pmemalign) { specFail("new"); u64 pp = CI(c.a[0]), al = CI(c.a[1]), n = sizeArg(c.a[2]); if (allocFails(n)) return retv(c, VC(12)); storeRaw(pp, 8, VC(heapAlloc(n, al)), false); return retv(c, VC(0)); }
static void doFree(u64 p) {
  if (!p) return; specFail("free"); if (!inArena(p)) { free((void *)p); return; }
  auto it = heapBlocks.find(p); if (it == heapBlocks.end()) { event("badfree", std::string(freedBlocks.count(p) ? "double free" : "free of a pointer that is not the start of a heap block") + " in " + whereStr()); }
  race(p, it->second, true); markUn(p, it->second, 0xFD); liveBytes -= it->second; freedBlocks[p] = it->second; heapBlocks.erase(it); }
H(h_free) { doFree(CI(c.a[0])); return OK; }
H(h_realloc) { specFail("realloc"); u64 p = CI(c.a[0]), n = sizeArg(c.a[1]); if (allocFails(n)) return retv(c, VC(0)); u64 q = heapAlloc(n, 16); if (p) { u64 o = heapBlocks.count(p) ? heapBlocks[p] : 0; copyMem(q, p, std::min(o, n)); doFree(p); } return retv(c, VC(q)); }
void operator delete(void *p) noexcept { if (!p) return; if (inArena((u64)p)) { auto it = heapBlocks.find((u64)p); if (it != heapBlocks.end()) { markUn((u64)p, it->second, 0xFD); liveBytes -= it->second; freedBlocks[(u64)p] = it->second; heapBlocks.erase(it); } return; } free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
static void chkRW(u64 p, u64 n, const char *w) { if (n && !addrOK(p, n)) oob(p, n, w); race(p, n, *w == 'w'); }
H(h_memcpy) { u64 n = CI(c.a[2]); u64 d = CI(c.a[0]), s = CI(c.a[1]); chkRW(d, n, "write"); chkRW(s, n, "read"); copyMem(d, s, n); return retv(c, VC(d)); }
H(h_memset) { u64 n = CI(c.a[2]); u64 d = CI(c.a[0]); chkRW(d, n, "write"); if (speculating) { if (n > 4096) throw MergeAbort{"memset"}; undoPush(d, n, false); } if (c.a[1].s) { Node *b = X.extract(c.a[1].s, 0, 8); int sp = speculating; speculating = 0; for (u64 i = 0; i < n; i++) storeRaw(d + i, 1, VN(b), false); speculating = sp; } else { memset((void *)d, (int)c.a[1].c, n); clearShadow(d, n); } return retv(c, VC(d)); }
H(h_memcmp) { u64 n = CI(c.a[2]); u64 a = CI(c.a[0]), b = CI(c.a[1]); chkRW(a, n, "read"); chkRW(b, n, "read"); if (!hasShadow(a, n) && !hasShadow(b, n)) return retv(c, VC((u32)memcmp((void *)a, (void *)b, n)));
  Node *r = X.bv(0, 32); for (u64 i = n; i-- > 0;) { Val x = loadRaw(a + i, 1, false, 8), y = loadRaw(b + i, 1, false, 8); Node *p = x.s ? x.s : X.bv(x.c, 8), *q = y.s ? y.s : X.bv(y.c, 8); r = X.ite(X.cmp(EQ, p, q), r, X.ite(X.cmp(ULT, p, q), X.bv(0xFFFFFFFF, 32), X.bv(1, 32))); } return retv(c, VN(r)); }
H(h_memchr) { u64 n = CI(c.a[2]); u64 a = CI(c.a[0]); u64 ch = CI(c.a[1]); for (u64 i = 0; i < n; i++) { chkRW(a + i, 1, "read"); Val x = loadRaw(a + i, 1, false, 8); if (x.s ? branchOn(X.cmp(EQ, x.s, X.bv(ch & 255, 8))) : (x.c == (ch & 255))) return retv(c, VC(a + i)); } return retv(c, VC(0)); }
H(h_strlen) { u64 a = CI(c.a[0]); for (u64 i = 0;; i++) { chkRW(a + i, 1, "read"); Val x = loadRaw(a + i, 1, false, 8); if (x.s ? branchOn(X.cmp(EQ, x.s, X.bv(0, 8))) : !x.c) return retv(c, VC(i)); } }
// ---- exceptions
H(h_exalloc) { specFail("exc"); return retv(c, VC(heapAlloc(CI(c.a[0]), 16))); }
H(h_throw) { specFail("throw"); pending.obj = CI(c.a[0]); pending.tinfo = CI(c.a[1]); return UNWIND; }
H(h_begincatch) { specFail("catch"); caught.push_back(pending); return retv(c, VC(pending.obj)); }
H(h_endcatch) { if (!caught.empty()) caught.pop_back(); return OK; }
H(h_rethrow) { specFail("throw"); if (caught.empty()) event("terminate", "rethrow without exception"); pending = caught.back(); return UNWIND; }
H(h_resume) { specFail("throw"); return UNWIND; }
H(h_getexc) { return retv(c, VC(pending.obj)); }
H(h_throwx) {
  specFail("throw"); const std::string &n = c.name; auto has = [&](const char *s) { return n.find(s) != std::string::npos; };
  if (has("bad_alloc")) return throwNative(new std::bad_alloc, typeid(std::bad_alloc)); if (has("bad_array_new_length")) return throwNative(new std::bad_array_new_length, typeid(std::bad_array_new_length)); if (has("length_error")) return throwNative(new std::length_error("length"), typeid(std::length_error));
  if (has("out_of_range")) return throwNative(new std::out_of_range("range"), typeid(std::out_of_range)); if (has("logic_error")) return throwNative(new std::logic_error("logic"), typeid(std::logic_error)); if (has("bad_function_call")) return throwNative(new std::bad_function_call, typeid(std::bad_function_call)); if (has("bad_cast")) return throwNative(new std::bad_cast, typeid(std::bad_cast)); if (has("invalid_argument")) return throwNative(new std::invalid_argument("arg"), typeid(std::invalid_argument));
  event("exception", "std exception thrown by " + n); }
H(h_guardacq) { u64 p = CI(c.a[0]); specFail("guard"); return retv(c, VC(*(u8 *)p ? 0 : 1)); } H(h_guardrel) { *(u8 *)CI(c.a[0]) = 1; return OK; } H(h_zero) { return retv(c, VC(0)); }
static bool abortOk = false; static void rejected() { if (!abortOk) return; specFail("rejected"); SH->asserts++; SH->unsat++; SH->h[curH].asserts++; SH->h[curH].unsat++; SH->h[curH].paths++; SH->paths++; witness(); pathEnd(); }
H(h_abortmode) { specFail("mode"); abortOk = CI(c.a[0]); return OK; }
H(h_abort) { rejected(); event("abort", "abort() reached in " + whereStr()); } H(h_terminate) { event("terminate", "std::terminate reached in " + whereStr()); } H(h_assertfail) { rejected(); event("assertion", "assertion '" + cstr(CI(c.a[0])) + "' failed in " + whereStr()); } H(h_printassert) { rejected(); event("assertion", "library assertion failed in " + whereStr()); } H(h_pure) { event("purevirtual", "pure virtual call"); } H(h_exit) { event("exit", "exit() called in " + whereStr()); }
// ---- threads (sequentialised under a harness-chosen order)
static u64 thrId = 100; static std::vector<std::pair<u64, u64>> thrPending; // id,state
static u64 libcST = 0;
static St runState(u64 s) { u64 vt = *(u64 *)s; u64 fn = *(u64 *)(vt + 16); std::vector<Val> r; FunctionType *FT = FunctionType::get(Type::getVoidTy(LC), {PointerType::get(LC, 0)}, false); if (callAddr(fn, FT, nullptr, {VC(s)}, r) == UNWIND) event("terminate", "exception escapes a thread"); return OK; }
static St runThread(u64 s, u32 id) {
  if (!libcST) { auto *g = M->getNamedGlobal("__libc_single_threaded"); libcST = g && gaddr.count(g) ? gaddr[g] : 1; } if (libcST > 1) *(u8 *)libcST = 0;
  u32 up = thrCur; thrParent[id] = up; thrBase[id] = stackTop; thrLive.insert(id); thrCur = id; raceOn = true; St r = runState(s);
  for (auto it = raceMap.begin(); it != raceMap.end();) if (it->first >= thrBase[id] && it->first < HEAP_BASE && it->first >= STACK_BASE) it = raceMap.erase(it); else ++it;
  thrCur = up; return r; }
static void endThread(u32 id) { if (thrLive.erase(id)) { thrInto[id] = thrCur; if (thrLive.empty()) { raceMap.clear(); raceOn = false; thrInto.clear(); } } }
static u64 lockArg(CallCtx &c) { return CI(c.a[0]); }
H(h_lock) { specFail("lock"); u64 m = lockArg(c); if (locksHeld.count(m) && *(u32 *)(m + 16) == 0) event("hang", "a thread locks a mutex it already holds in " + whereStr()); locksHeld.insert(m); return retv(c, VC(0)); }
H(h_unlock) { specFail("lock"); locksHeld.erase(lockArg(c)); return retv(c, VC(0)); }
H(h_startthr) { specFail("thread"); u64 self = CI(c.a[0]), up = CI(c.a[1]); u64 st = *(u64 *)up; *(u64 *)up = 0; u64 id = ++thrId; storeRaw(self, 8, VC(id), false); if (cfgThreadMode == 0) return runThread(st, id); thrPending.push_back({id, st}); return OK; }
static void runPendingFor(u64 id) { // mode 1: in start order, mode 2: in reverse order, at the first join
  if (cfgThreadMode == 0) return; auto v = thrPending; thrPending.clear(); if (cfgThreadMode == 2) std::reverse(v.begin(), v.end()); (void)id; for (auto &x : v) runState(x.second); }
H(h_join) { specFail("thread"); u64 self = CI(c.a[0]); u64 id = *(u64 *)self; if (!id) event("terminate", "join of a non-joinable thread"); runPendingFor(id); endThread(id); storeRaw(self, 8, VC(0), false); return OK; }
H(h_detach) { specFail("thread"); u64 self = CI(c.a[0]); u64 id = *(u64 *)self; if (!id) event("terminate", "detach of a non-joinable thread"); runPendingFor(id); storeRaw(self, 8, VC(0), false); return OK; }
H(h_hwc) { return retv(c, VC(cfgCores)); }
H(h_genrand) { // fresh arbitrary state for std::mersenne_twister_engine
  specFail("rand"); u64 p = CI(c.a[0]), n = CI(c.a[1]); if (!cfgRandSym) return retv(c, VC(0));
  u64 q = symSeq++; for (u64 i = 0; i < n; i++) { if (i < (cfgRandSym > 1 ? cfgRandSym : 64)) { Node *v = newVar(false, 32, q, i); storeRaw(p + 8 * i, 8, VN(X.zext(v, 64)), false); } else storeRaw(p + 8 * i, 8, VC(0x9E3779B9u * i & 0xFFFFFFFF), false); } return retv(c, VC(1)); }
H(h_rdev) { return retv(c, VC(0x12345678)); }
// ---- streams of symbolic floats
static std::map<std::string, Node *> tokens; static std::vector<std::pair<std::string, Node *>> tokList;
H(h_insd) { specFail("io"); std::ostream *os = (std::ostream *)CI(c.a[0]); Node *s = c.a[1].s; if (!s) { *os << bitsToD(c.a[1].c, 64); return retv(c, c.a[0]); }
  bool f32 = s->op == FEXT && s->a[0]->w == 32; bool exact = os->precision() >= (f32 ? 9 : 17) || ((os->flags() & std::ios::floatfield) == (std::ios::fixed | std::ios::scientific)); if ((os->flags() & std::ios::floatfield) == std::ios::fixed) exact = false; if ((os->flags() & std::ios::floatfield) == std::ios::scientific) exact = os->precision() >= (f32 ? 8 : 16);
  Node *v = f32 ? s->a[0] : s; if (!exact) { v = X.fn1(F_PREC, v); precUsed = true; } char b[40]; snprintf(b, 40, "9.%04ue+31", (unsigned)tokList.size() + 1); tokList.push_back({b, v}); *os << b; return retv(c, c.a[0]); }
static Node *tokFor(double d) { for (auto &t : tokList) if ((float)strtod(t.first.c_str(), nullptr) == (float)d) return t.second; return nullptr; }
H(h_extf) { specFail("io"); std::istream *is = (std::istream *)CI(c.a[0]); u64 p = CI(c.a[1]); float f = 0; bool ok = (bool)(*is >> f); (void)ok; u32 b; memcpy(&b, &f, 4); Node *n = tokFor(f); if (n) storeRaw(p, 4, VN(X.fcast(n, 32)), true); else storeRaw(p, 4, VC(b), true); return retv(c, c.a[0]); }
H(h_extd) { specFail("io"); std::istream *is = (std::istream *)CI(c.a[0]); u64 p = CI(c.a[1]); double f = 0; *is >> f; u64 b; memcpy(&b, &f, 8); Node *n = tokFor(f); if (n) storeRaw(p, 8, VN(X.fcast(n, 64)), true); else storeRaw(p, 8, VC(b), true); return retv(c, c.a[0]); }
// ---- files with symbolic contents (sym_file): the file on disk has the right length, the bytes are given to whoever reads it through a std::filebuf
static std::map<std::string, std::vector<Val>> symFiles;
struct FbHack : std::filebuf { static int fd(std::filebuf *b) { return (b->*(&FbHack::_M_file)).fd(); } static char *g(std::streambuf *b) { return (((std::filebuf *)b)->*(&FbHack::gptr))(); } static char *e(std::streambuf *b) { return (((std::filebuf *)b)->*(&FbHack::egptr))(); } };
static std::vector<Val> *symFileOf(std::streambuf *sb) { if (symFiles.empty() || !sb) return nullptr; auto *fb = dynamic_cast<std::filebuf *>(sb); if (!fb || !fb->is_open()) return nullptr; char l[4096]; ssize_t n = readlink(("/proc/self/fd/" + std::to_string(FbHack::fd(fb))).c_str(), l, sizeof l - 1); if (n <= 0) return nullptr; l[n] = 0; auto it = symFiles.find(l); return it == symFiles.end() ? nullptr : &it->second; }
static u64 fbPos(std::streambuf *sb) { return (u64)(std::streamoff)sb->pubseekoff(0, std::ios::cur, std::ios::in); }
static void fbShadow(std::streambuf *sb, std::vector<Val> *f, u64 back) { char *g = FbHack::g(sb) - back, *e = FbHack::e(sb); if (g >= e) return; if (!f) { if (!symFiles.empty()) clearShadow((u64)g, e - g); return; } u64 o = fbPos(sb) - back; for (; g < e && o < f->size(); g++, o++) if ((*f)[o].s) storeRaw((u64)g, 1, (*f)[o], false); else clearShadow((u64)g, 1); }
H(h_symfile) { specFail("io"); std::string path = cstr(CI(c.a[0])); u64 p = CI(c.a[1]), n = CI(c.a[2]); std::vector<Val> v; std::string b; for (u64 i = 0; i < n; i++) { v.push_back(loadRaw(p + i, 1, false, 8)); b.push_back(v.back().s ? 0 : (char)v.back().c); } std::ofstream o(path, std::ios::binary); o.write(b.data(), n); symFiles[path] = v; return OK; }
H(h_fbunder) { specFail("io"); auto *sb = (std::streambuf *)CI(c.a[0]); auto *f = symFileOf(sb); bool u = c.name.find("uflow") != std::string::npos && c.name.find("underflow") == std::string::npos; u64 pos = f ? fbPos(sb) : 0; int r = u ? sb->sbumpc() : sb->sgetc(); if (dynamic_cast<std::filebuf *>(sb)) fbShadow(sb, f, u && r != -1 ? 1 : 0); if (r != -1 && f && pos < f->size() && (*f)[pos].s) return retv(c, VN(X.zext((*f)[pos].s, 32))); return retv(c, VC((u32)r)); }
H(h_fbxsgetn) { specFail("io"); auto *sb = (std::streambuf *)CI(c.a[0]); u64 p = CI(c.a[1]), n = CI(c.a[2]); auto *f = symFileOf(sb); u64 pos = f ? fbPos(sb) : 0; if (n && !addrOK(p, n)) oob(p, n, "write"); std::string b(n, 0); u64 k = sb->sgetn(b.data(), n); for (u64 i = 0; i < k; i++) storeRaw(p + i, 1, f && pos + i < f->size() ? (*f)[pos + i] : VC((u8)b[i]), false); if (dynamic_cast<std::filebuf *>(sb)) fbShadow(sb, f, 0); return retv(c, VC(k)); }
// ---- byte streams: symbolic contents of std::istream (sym_source) and std::ostream (sym_sink, sym_drain)
static std::map<u64, std::pair<std::vector<Val>, size_t>> srcs; static std::map<u64, std::vector<Val>> sinks;
H(h_source) { specFail("io"); u64 is = CI(c.a[0]), p = CI(c.a[1]), n = CI(c.a[2]); auto &q = srcs[is]; q.first.clear(); q.second = 0; for (u64 i = 0; i < n; i++) q.first.push_back(loadRaw(p + i, 1, false, 8)); ((std::istream *)is)->clear(); return OK; }
H(h_sink) { specFail("io"); sinks[CI(c.a[0])].clear(); return OK; }
H(h_drain) { specFail("io"); auto &q = sinks[CI(c.a[0])]; u64 p = CI(c.a[1]), cap = CI(c.a[2]); for (u64 i = 0; i < q.size() && i < cap; i++) storeRaw(p + i, 1, q[i], false); u64 n = q.size(); q.clear(); return retv(c, VC(n)); }
H(h_getc) { specFail("io"); u64 is = CI(c.a[0]), p = CI(c.a[1]); auto *I = (std::istream *)is; auto it = srcs.find(is); if (it == srcs.end()) { auto *f = symFileOf(I->rdbuf()); u64 pos = f ? fbPos(I->rdbuf()) : 0; char ch; I->get(ch); if (*I) storeRaw(p, 1, f && pos < f->size() ? (*f)[pos] : VC((u8)ch), false); if (f) fbShadow(I->rdbuf(), f, 0); return retv(c, c.a[0]); }
  if (!I->good()) I->setstate(std::ios::failbit); else if (it->second.second < it->second.first.size()) storeRaw(p, 1, it->second.first[it->second.second++], false); else I->setstate(std::ios::eofbit | std::ios::failbit); return retv(c, c.a[0]); }
H(h_geti) { specFail("io"); u64 is = CI(c.a[0]); auto *I = (std::istream *)is; auto it = srcs.find(is); if (it == srcs.end()) { auto *f = symFileOf(I->rdbuf()); u64 pos = f ? fbPos(I->rdbuf()) : 0; int r = I->get(); if (f) fbShadow(I->rdbuf(), f, 0); return retv(c, r != -1 && f && pos < f->size() && (*f)[pos].s ? VN(X.zext((*f)[pos].s, 32)) : VC((u32)r)); } if (!I->good()) { I->setstate(std::ios::failbit); return retv(c, VC((u32)-1)); } if (it->second.second < it->second.first.size()) { Val v = it->second.first[it->second.second++]; return retv(c, v.s ? VN(X.zext(v.s, 32)) : VC((u8)v.c)); } I->setstate(std::ios::eofbit | std::ios::failbit); return retv(c, VC((u32)-1)); }
H(h_isread) { specFail("io"); u64 is = CI(c.a[0]), p = CI(c.a[1]), n = CI(c.a[2]); auto *I = (std::istream *)is; if (n && !addrOK(p, n)) oob(p, n, "write"); auto it = srcs.find(is); if (it == srcs.end()) { auto *f = symFileOf(I->rdbuf()); u64 pos = f && I->good() ? fbPos(I->rdbuf()) : 0; std::string b(n, 0); I->read(b.data(), n); u64 k = I->gcount(); for (u64 i = 0; i < k; i++) storeRaw(p + i, 1, f && pos + i < f->size() ? (*f)[pos + i] : VC((u8)b[i]), false); if (f) fbShadow(I->rdbuf(), f, 0); return retv(c, c.a[0]); }
  for (u64 i = 0; i < n; i++) { if (it->second.second < it->second.first.size()) storeRaw(p + i, 1, it->second.first[it->second.second++], false); else { I->setstate(std::ios::eofbit | std::ios::failbit); break; } } return retv(c, c.a[0]); }
static void putTo(u64 os, const Val &v) { auto it = sinks.find(os); Val b = v.s && v.s->w != 8 ? VN(X.extract(v.s, 0, 8)) : v; if (it == sinks.end()) { ((std::ostream *)os)->put((char)CI(b)); return; } if (((std::ostream *)os)->good()) it->second.push_back(b.s ? b : VC((u8)b.c)); }
H(h_putc) { specFail("io"); putTo(CI(c.a[0]), c.a[1]); return retv(c, c.a[0]); }
H(h_oswrite) { specFail("io"); u64 os = CI(c.a[0]), p = CI(c.a[1]), n = CI(c.a[2]); if (n && !addrOK(p, n)) oob(p, n, "read"); if (!sinks.count(os)) { std::string b; for (u64 i = 0; i < n; i++) b.push_back((char)CI(loadRaw(p + i, 1, false, 8))); if (c.name.find("__ostream_insert") != std::string::npos) *(std::ostream *)os << b; else ((std::ostream *)os)->write(b.data(), n); return retv(c, c.a[0]); } for (u64 i = 0; i < n; i++) putTo(os, loadRaw(p + i, 1, false, 8)); return retv(c, c.a[0]); }
// ---- math
static Node *mathNode(Fn f, Node *x) {
  if (X.realMode) { if (f == F_EXP && X.isFZ(x)) return X.fconst(1, x->w); }
  return X.fn1(f, x); }
static double mathD(Fn f, double x) { switch (f) { case F_EXP: return exp(x); case F_LOG: return log(x); case F_SIN: return sin(x); case F_COS: return cos(x); case F_TAN: return tan(x); case F_ASIN: return asin(x); case F_ACOS: return acos(x); case F_ATAN: return atan(x); case F_SINH: return sinh(x); case F_COSH: return cosh(x); case F_TANH: return tanh(x); case F_ASINH: return asinh(x); case F_ACOSH: return acosh(x); case F_ATANH: return atanh(x); case F_SQRT: return sqrt(x); case F_CBRT: return cbrt(x); case F_FLOOR: return floor(x); case F_CEIL: return ceil(x); case F_TRUNC: return trunc(x); case F_ROUND: return round(x); case F_RINT: return rint(x); case F_ERF: return erf(x); case F_ERFC: return erfc(x); case F_EXP2: return exp2(x); case F_EXPM1: return expm1(x); case F_LOG2: return log2(x); case F_LOG10: return log10(x); case F_LOG1P: return log1p(x); default: abort(); } }
static float mathF(Fn f, float x) { switch (f) { case F_EXP: return expf(x); case F_LOG: return logf(x); case F_SIN: return sinf(x); case F_COS: return cosf(x); case F_TAN: return tanf(x); case F_ASIN: return asinf(x); case F_ACOS: return acosf(x); case F_ATAN: return atanf(x); case F_SINH: return sinhf(x); case F_COSH: return coshf(x); case F_TANH: return tanhf(x); case F_ASINH: return asinhf(x); case F_ACOSH: return acoshf(x); case F_ATANH: return atanhf(x); case F_SQRT: return sqrtf(x); case F_CBRT: return cbrtf(x); case F_FLOOR: return floorf(x); case F_CEIL: return ceilf(x); case F_TRUNC: return truncf(x); case F_ROUND: return roundf(x); case F_RINT: return rintf(x); case F_ERF: return erff(x); case F_ERFC: return erfcf(x); case F_EXP2: return exp2f(x); case F_EXPM1: return expm1f(x); case F_LOG2: return log2f(x); case F_LOG10: return log10f(x); case F_LOG1P: return log1pf(x); default: abort(); } }
static std::unordered_map<std::string, std::pair<int, u32>> mathTab; // name -> fn,width ; fn>=100: special binary
static Val doMath1(Fn f, const Val &a, u32 w) { if (!a.s) { if (w == 32) { float r = mathF(f, (float)bitsToD(a.c, 32)); u32 o; memcpy(&o, &r, 4); return VC(o); } double r = mathD(f, bitsToD(a.c, 64)); u64 o; memcpy(&o, &r, 8); return VC(o); } return VN(mathNode(f, a.s)); }
static Node *fminmax(Node *x, Node *y, bool mx) { Node *c = mx ? X.fcmp(FLT, x, y) : X.fcmp(FLT, y, x); if (X.realMode) return X.ite(c, y, x); return X.ite(X.fcmp(FUNO, x, x), y, X.ite(X.fcmp(FUNO, y, y), x, X.ite(c, y, x))); }
static Val doMath2(int k, const Val &a, const Val &b, u32 w) { // 0 pow 1 atan2 2 hypot 3 fmax 4 fmin 5 copysign 6 fmod
  if (!a.s && !b.s) { if (w == 32) { float x = bitsToD(a.c, 32), y = bitsToD(b.c, 32), r = k == 0 ? powf(x, y) : k == 1 ? atan2f(x, y) : k == 2 ? hypotf(x, y) : k == 3 ? fmaxf(x, y) : k == 4 ? fminf(x, y) : k == 5 ? copysignf(x, y) : fmodf(x, y); u32 o; memcpy(&o, &r, 4); return VC(o); } double x = bitsToD(a.c, 64), y = bitsToD(b.c, 64), r = k == 0 ? pow(x, y) : k == 1 ? atan2(x, y) : k == 2 ? hypot(x, y) : k == 3 ? fmax(x, y) : k == 4 ? fmin(x, y) : k == 5 ? copysign(x, y) : fmod(x, y); u64 o; memcpy(&o, &r, 8); return VC(o); }
  Node *x = a.s ? a.s : X.fbits(a.c, w), *y = b.s ? b.s : X.fbits(b.c, w);
  switch (k) { case 0: if (X.realMode && X.isFC(y, 2)) return VN(X.fbin(FMUL, x, x)); if (X.realMode && X.isFC(y, 1)) return VN(x); if (X.realMode && X.isFC(y, 0.5)) return VN(X.fn1(F_SQRT, x)); return VN(X.fn2(F_POW, x, y)); case 1: return VN(X.fn2(F_ATAN2, x, y)); case 2: return VN(X.fn1(F_SQRT, X.fbin(FADD, X.fbin(FMUL, x, x), X.fbin(FMUL, y, y)))); case 3: return VN(fminmax(x, y, true)); case 4: return VN(fminmax(x, y, false));
    case 5: { Node *m = X.fabs_(x); return VN(X.ite(X.fcmp(FLT, y, X.fconst(0, w)), X.fneg(m), m)); } default: return VN(X.fbin(FREM, x, y)); } }
H(h_math) { auto &p = mathTab[c.name]; u32 w = p.second; int k = p.first; if (k < 100) return retv(c, doMath1((Fn)k, c.a[0], w)); if (k < 200) return retv(c, doMath2(k - 100, c.a[0], c.a[1], w));
  switch (k) { case 200: return retv(c, c.a[0].s ? VN(X.fabs_(c.a[0].s)) : VC(c.a[0].c & Exprs::mask(w - 1))); case 201: { Type *t = w == 32 ? Type::getFloatTy(LC) : Type::getDoubleTy(LC); return retv(c, fbinV(FADD, fbinV(FMUL, c.a[0], c.a[1], t), c.a[2], t)); }
    case 202: { if (!c.a[0].s && !c.a[1].s) return retv(c, VC(c.a[0].c)); return OK; } case 203: case 204: { Val r = doMath1(mathTab[c.name].first == 203 ? F_ROUND : F_RINT, c.a[0], w); Type *t = w == 32 ? Type::getFloatTy(LC) : Type::getDoubleTy(LC); return retv(c, castV(Instruction::FPToSI, r, t, Type::getInt64Ty(LC))); } } return OK; }
static St cmulx(CallCtx &c, u32 w, bool div) { Type *t = w == 32 ? Type::getFloatTy(LC) : Type::getDoubleTy(LC); auto M = [&](const Val &a, const Val &b) { return fbinV(FMUL, a, b, t); }; auto A = [&](const Val &a, const Val &b) { return fbinV(FADD, a, b, t); }; auto S = [&](const Val &a, const Val &b) { return fbinV(FSUB, a, b, t); }; Val a = c.a[0], b = c.a[1], x = c.a[2], y = c.a[3];
  if (!div) { c.ret[0] = S(M(a, x), M(b, y)); c.ret[1] = A(M(a, y), M(b, x)); } else { Val d = A(M(x, x), M(y, y)); c.ret[0] = fbinV(FDIV, A(M(a, x), M(b, y)), d, t); c.ret[1] = fbinV(FDIV, S(M(b, x), M(a, y)), d, t); } return OK; }
H(h_mulsc) { return cmulx(c, 32, false); } H(h_divsc) { return cmulx(c, 32, true); } H(h_muldc) { return cmulx(c, 64, false); } H(h_divdc) { return cmulx(c, 64, true); }

static void setupHandlers() {
  auto E = [&](const char *n, Handler h) { exactH[n] = h; };
  E("sym_f32", h_symf32); E("sym_f64", h_symf64); E("sym_bytes", h_symbytes); E("sym_u64", h_symu64); E("sym_choose", h_choose); E("sym_concretize", h_concretize); E("sym_mode_fp", h_modefp); E("sym_assume", h_assume); E("sym_assert", h_assert); E("sym_eq_f32", h_eqf32); E("sym_eq_f64", h_eqf64); E("sym_eq_u8", h_equ8); E("sym_eq_u64", h_equ64); E("sym_grad_f32", h_gradf32); E("sym_grad_f64", h_gradf64);
  E("sym_file", h_symfile); E("_ZNSt13basic_filebufIcSt11char_traitsIcEE9underflowEv", h_fbunder); E("_ZNSt15basic_streambufIcSt11char_traitsIcEE5uflowEv", h_fbunder); E("_ZNSt13basic_filebufIcSt11char_traitsIcEE6xsgetnEPcl", h_fbxsgetn); E("sym_fail_alloc", h_failalloc); E("sym_alloc_cap", h_alloccap); E("sym_live_bytes", h_live); E("sym_is_valid", h_isblock); E("sym_cores", h_cores); E("sym_thread_mode", h_tmode); E("sym_term", h_term); E("ioctl", h_ioctl); E("sym_rand", h_randsym); E("sym_native_rand", h_genrand); E("sym_print_f32", h_print); E("sym_abort", h_abortmode); E("sym_source", h_source); E("sym_sink", h_sink); E("sym_drain", h_drain); E("_ZNSi3getERc", h_getc); E("_ZNSi3getEv", h_geti); E("_ZNSi4readEPcl", h_isread); E("_ZNSo3putEc", h_putc); E("_ZNSo5writeEPKcl", h_oswrite); E("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", h_oswrite); E("sym_end", h_end);
  E("malloc", h_malloc); E("calloc", h_calloc); E("realloc", h_realloc); E("free", h_free); E("aligned_alloc", h_aalloc); E("posix_memalign", h_pmemalign); for (auto n : {"_Znwm", "_Znam"}) E(n, h_new); for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) E(n, h_newal); for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) E(n, h_newnt);
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) E(n, h_free);
  E("pthread_mutex_lock", h_lock); E("pthread_mutex_unlock", h_unlock); E("memcpy", h_memcpy); E("memmove", h_memcpy); E("memset", h_memset); E("memcmp", h_memcmp); E("bcmp", h_memcmp); E("memchr", h_memchr); E("strlen", h_strlen);
  E("__cxa_allocate_exception", h_exalloc); E("__cxa_free_exception", h_free); E("__cxa_throw", h_throw); E("__cxa_begin_catch", h_begincatch); E("__cxa_end_catch", h_endcatch); E("__cxa_rethrow", h_rethrow); E("_Unwind_Resume", h_resume); E("__cxa_get_exception_ptr", h_getexc);
  prefixH.push_back({"_ZSt20__throw_length_error", h_throwx}); prefixH.push_back({"_ZSt17__throw_bad_alloc", h_throwx}); prefixH.push_back({"_ZSt28__throw_bad_array_new_length", h_throwx}); prefixH.push_back({"_ZSt20__throw_out_of_range", h_throwx}); prefixH.push_back({"_ZSt24__throw_out_of_range_fmt", h_throwx}); prefixH.push_back({"_ZSt19__throw_logic_error", h_throwx}); prefixH.push_back({"_ZSt25__throw_bad_function_call", h_throwx}); prefixH.push_back({"_ZSt16__throw_bad_cast", h_throwx}); prefixH.push_back({"_ZSt24__throw_invalid_argument", h_throwx}); prefixH.push_back({"_ZSt21__throw_runtime_error", h_throwx}); prefixH.push_back({"_ZSt20__throw_system_error", h_throwx});
  E("__cxa_guard_acquire", h_guardacq); E("__cxa_guard_release", h_guardrel); E("__cxa_guard_abort", h_zero); E("__cxa_atexit", h_zero); E("__cxa_thread_atexit", h_zero); E("atexit", h_zero);
  E("abort", h_abort); E("_ZSt9terminatev", h_terminate); E("__clang_call_terminate", h_terminate); E("__assert_fail", h_assertfail); E("exit", h_exit); E("_exit", h_exit); E("__cxa_pure_virtual", h_pure); prefixH.push_back({"_ZN17private_namespace15print_assertion", h_printassert});
  E("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", h_startthr); E("_ZNSt6thread4joinEv", h_join); E("_ZNSt6thread6detachEv", h_detach); E("_ZNSt6thread20hardware_concurrencyEv", h_hwc); E("_ZNSt13random_device9_M_getvalEv", h_rdev);
  E("_ZNSo9_M_insertIdEERSoT_", h_insd); E("_ZNSolsEd", h_insd); E("_ZNSi10_M_extractIfEERSiRT_", h_extf); E("_ZNSirsERf", h_extf); E("_ZNSi10_M_extractIdEERSiRT_", h_extd); E("_ZNSirsERd", h_extd);
  E("__mulsc3", h_mulsc); E("__divsc3", h_divsc); E("__muldc3", h_muldc); E("__divdc3", h_divdc);
  struct { const char *n; int f; } ms[] = {{"exp", F_EXP}, {"log", F_LOG}, {"sin", F_SIN}, {"cos", F_COS}, {"tan", F_TAN}, {"asin", F_ASIN}, {"acos", F_ACOS}, {"atan", F_ATAN}, {"sinh", F_SINH}, {"cosh", F_COSH}, {"tanh", F_TANH}, {"asinh", F_ASINH}, {"acosh", F_ACOSH}, {"atanh", F_ATANH}, {"sqrt", F_SQRT}, {"cbrt", F_CBRT}, {"floor", F_FLOOR}, {"ceil", F_CEIL}, {"trunc", F_TRUNC}, {"round", F_ROUND}, {"rint", F_RINT}, {"nearbyint", F_RINT}, {"erf", F_ERF}, {"erfc", F_ERFC}, {"exp2", F_EXP2}, {"expm1", F_EXPM1}, {"log2", F_LOG2}, {"log10", F_LOG10}, {"log1p", F_LOG1P}, {"pow", 100}, {"atan2", 101}, {"hypot", 102}, {"fmax", 103}, {"fmin", 104}, {"copysign", 105}, {"fmod", 106}, {"fabs", 200}, {"fma", 201}, {"lround", 203}, {"llround", 203}, {"lrint", 204}, {"llrint", 204}};
  for (auto &m : ms) { std::string d = m.n, f = d + "f"; mathTab[d] = {m.f, 64}; mathTab[f] = {m.f, 32}; exactH[d] = h_math; exactH[f] = h_math; }
}
static Val intrin(Intrinsic::ID id, CallBase *CB, const std::vector<Val> &a, std::vector<Val> &ret, bool &many) {
  Type *t = CB->getType(); u32 lanes = flatCount(t); Type *et = t->getScalarType(); many = true; ret.resize(std::max(1u, lanes));
  auto each = [&](auto fn) { for (u32 l = 0; l < lanes; l++) ret[l] = fn(l); }; u32 L = lanes; u32 w = (et->isVoidTy() || et->isStructTy() || et->isTokenTy()) ? 0 : tw(et);
  auto m1 = [&](Fn f) { if (w == 80) { if (a[0].s) fatal("long double math on a symbolic value"); each([&](u32) { long double x = ld(a[0]); switch (f) { case F_EXP: x = expl(x); break; case F_LOG: x = logl(x); break; case F_LOG2: x = log2l(x); break; case F_SQRT: x = sqrtl(x); break; case F_FLOOR: x = floorl(x); break; case F_CEIL: x = ceill(x); break; default: fatal("long double intrinsic"); } return ldV(x); }); return; } each([&](u32 l) { return doMath1(f, a[l], w); }); };
  switch (id) {
    case Intrinsic::exp: m1(F_EXP); break; case Intrinsic::exp2: m1(F_EXP2); break; case Intrinsic::log: m1(F_LOG); break; case Intrinsic::log2: m1(F_LOG2); break; case Intrinsic::log10: m1(F_LOG10); break; case Intrinsic::sin: m1(F_SIN); break; case Intrinsic::cos: m1(F_COS); break; case Intrinsic::sqrt: m1(F_SQRT); break; case Intrinsic::floor: m1(F_FLOOR); break; case Intrinsic::ceil: m1(F_CEIL); break; case Intrinsic::trunc: m1(F_TRUNC); break; case Intrinsic::round: m1(F_ROUND); break; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: m1(F_RINT); break;
    case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: { Type *st = CB->getArgOperand(0)->getType()->getScalarType(); bool rd = id == Intrinsic::lround || id == Intrinsic::llround; each([&](u32 l) { return castV(Instruction::FPToSI, doMath1(rd ? F_ROUND : F_RINT, a[l], tw(st)), st, et); }); break; }
    case Intrinsic::pow: each([&](u32 l) { return doMath2(0, a[l], a[L + l], w); }); break; case Intrinsic::copysign: each([&](u32 l) { return doMath2(5, a[l], a[L + l], w); }); break; case Intrinsic::maxnum: case Intrinsic::maximum: each([&](u32 l) { return doMath2(3, a[l], a[L + l], w); }); break; case Intrinsic::minnum: case Intrinsic::minimum: each([&](u32 l) { return doMath2(4, a[l], a[L + l], w); }); break;
    case Intrinsic::fabs: each([&](u32 l) { if (!a[l].s) return VC(a[l].c & Exprs::mask(w - 1)); return VN(X.fabs_(a[l].s)); }); break;
    case Intrinsic::fmuladd: case Intrinsic::fma: each([&](u32 l) { return fbinV(FADD, fbinV(FMUL, a[l], a[L + l], et), a[2 * L + l], et); }); break;
    case Intrinsic::powi: { i64 e = Exprs::sval(CI(a[L]), 32); each([&](u32 l) { if (!a[l].s) return dV(pow(fd(a[l], et), (double)e), et); Node *r = X.fconst(1, w), *x = a[l].s; for (i64 k = 0; k < std::abs(e); k++) r = X.fbin(FMUL, r, x); if (e < 0) r = X.fbin(FDIV, X.fconst(1, w), r); return VN(r); }); break; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: each([&](u32 l) { auto p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; Val c = icmp(p, a[l], a[L + l], w); if (!c.s) return c.c ? a[l] : a[L + l]; return VN(X.ite(c.s, N(a[l], et), N(a[L + l], et))); }); break;
    case Intrinsic::abs: each([&](u32 l) { Val z; Val c = icmp(CmpInst::ICMP_SLT, a[l], z, w); Val ng = ibin(Instruction::Sub, z, a[l], w); if (!c.s) return c.c ? ng : a[l]; return VN(X.ite(c.s, N(ng, et), N(a[l], et))); }); break;
    case Intrinsic::ctpop: each([&](u32 l) { return VC(__builtin_popcountll(CI(a[l]))); }); break; case Intrinsic::ctlz: each([&](u32 l) { u64 v = CI(a[l]); return VC(v ? __builtin_clzll(v) - (64 - w) : w); }); break; case Intrinsic::cttz: each([&](u32 l) { u64 v = CI(a[l]); return VC(v ? __builtin_ctzll(v) : w); }); break;
    case Intrinsic::bswap: each([&](u32 l) { if (!a[l].s) { u64 v = __builtin_bswap64(a[l].c) >> (64 - w); return VC(v); } Node *r = nullptr; for (u32 k = 0; k < w / 8; k++) { Node *b = X.extract(a[l].s, 8 * k, 8); r = r ? X.concat(r, b) : b; } return VN(r); }); break;
    case Intrinsic::fshl: case Intrinsic::fshr: each([&](u32 l) { u64 s = CI(a[2 * L + l]) % w; Node *x = N(a[l], et), *y = N(a[L + l], et); if (id == Intrinsic::fshl) { if (!s) return a[l]; return VN(X.bin(OR, X.bin(SHL, x, X.bv(s, w)), X.bin(LSHR, y, X.bv(w - s, w)))); } if (!s) return a[L + l]; return VN(X.bin(OR, X.bin(SHL, x, X.bv(w - s, w)), X.bin(LSHR, y, X.bv(s, w)))); }); break;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Type *it = CB->getArgOperand(0)->getType(); u32 ww = tw(it); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      if (!a[0].s && !a[1].s && ww <= 64) { i128 x = sg ? (i128)Exprs::sval(a[0].c, ww) : (i128)a[0].c, y = sg ? (i128)Exprs::sval(a[1].c, ww) : (i128)a[1].c; i128 r = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; if (op == Instruction::Mul && !sg) { u128 ur = (u128)a[0].c * a[1].c; ret[0] = VC(truncW((u64)ur, ww)); ret[1] = VC((ur >> ww) != 0); } else { ret[0] = VC(truncW((u64)r, ww)); bool ov = sg ? r != (i128)Exprs::sval((u64)r, ww) : (r < 0 || (r >> ww) != 0); ret[1] = VC(ov); } }
      else { Node *x = N(a[0], it), *y = N(a[1], it); Op o = op == Instruction::Add ? ADD : op == Instruction::Sub ? SUB : MUL; u32 W = 2 * ww; Node *xx = sg ? X.sext(x, W) : X.zext(x, W), *yy = sg ? X.sext(y, W) : X.zext(y, W); Node *r = X.raw(o, W, false, {xx, yy}); Node *lo = X.bin(o, x, y); Node *back = sg ? X.sext(lo, W) : X.zext(lo, W); ret[0] = VN(lo); ret[1] = VN(X.bnot(X.raw(EQ, 1, false, {r, back}))); }
      break; }
    case Intrinsic::usub_sat: each([&](u32 l) { Val c = icmp(CmpInst::ICMP_ULT, a[l], a[L + l], w); Val d = ibin(Instruction::Sub, a[l], a[L + l], w); if (!c.s) return c.c ? Val() : d; return VN(X.ite(c.s, X.bv(0, w), N(d, et))); }); break;
    case Intrinsic::uadd_sat: each([&](u32 l) { Val d = ibin(Instruction::Add, a[l], a[L + l], w); Val c = icmp(CmpInst::ICMP_ULT, d, a[l], w); if (!c.s) return c.c ? VC(Exprs::mask(w)) : d; return VN(X.ite(c.s, X.bv(~0ull, w), N(d, et))); }); break;
    case Intrinsic::vector_reduce_add: { Type *vt = CB->getArgOperand(0)->getType(); u32 n = flatCount(vt); Val r = a[0]; for (u32 l = 1; l < n; l++) r = ibin(Instruction::Add, r, a[l], w); ret[0] = r; break; }
    case Intrinsic::is_fpclass: { Type *at = CB->getArgOperand(0)->getType(); u64 m = a[1].c; if (!a[0].s) { double d = fd(a[0], at); u64 cl = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : (d < 0 ? 8 | 16 : 128 | 256); ret[0] = VC((cl & m) != 0); } else if (X.realMode) { ret[0] = (m & (8 | 16 | 32 | 64 | 128 | 256)) == 0 ? VC(0) : (m & 0x1F8) == 0x1F8 ? VC(1) : (fatal("is_fpclass"), Val()); } else fatal("is_fpclass fp"); break; }
    default: many = false; }
  return Val();
}
static St callExternal(const std::string &name, Function *F, u64 naddr, FunctionType *FT, CallBase *CB, const std::vector<Val> &args, std::vector<Val> &ret) {
  if (F && F->isIntrinsic()) {
    auto id = F->getIntrinsicID();
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::stackrestore: ret.resize(1); return OK;
      case Intrinsic::stacksave: ret = {VC(stackTop)}; return OK;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { CallCtx c; c.a = args; h_memcpy(c); return OK; }
      case Intrinsic::memset: { CallCtx c; c.a = args; h_memset(c); return OK; }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: ret = {args[0]}; return OK;
      case Intrinsic::is_constant: ret = {VC(0)}; return OK;
      case Intrinsic::objectsize: ret = {VC(~0ull)}; return OK;
      case Intrinsic::eh_typeid_for: { u64 t = args[0].c & 0x7fffffff; ret = {VC(t ? t : 1)}; return OK; }
      case Intrinsic::trap: case Intrinsic::ubsantrap: event("trap", "trap in " + whereStr());
      default: { bool many; intrin(id, CB, args, ret, many); if (many) return OK; fatal("intrinsic " + name); }
    }
  }
  CallCtx c; c.F = F; c.CB = CB; c.FT = FT; c.name = name; Handler h = findHandler(name);
  if (h) { c.a = args; St s = h(c); if ((int)s != 2) { if (s == OK) { u32 n = std::max(1u, flatCount(FT->getReturnType())); ret.assign(c.ret, c.ret + std::min<u32>(n, 32)); } return s; } }
  if (F && !F->isDeclaration()) { lookCache[name] = nullptr; return callF(F, args, ret); }
  specFail("native");
  void *fp = naddr ? (void *)naddr : dlsym(RTLD_DEFAULT, name.c_str()); if (!fp || (u64)fp - CODE_BASE < (1ull << 32)) fatal("unresolved external function " + demangle(name));
  if (nativeSeen.insert(name).second) logline("{\"t\":\"native\",\"name\":\"" + jesc(demangle(name).substr(0, 200)) + "\"}");
  // ffi
  std::vector<ffi_type *> at; std::vector<std::array<u64, 2>> store; store.reserve(64); std::vector<void *> av; size_t ai = 0; unsigned nfix = FT->getNumParams(); unsigned nargs = CB ? CB->arg_size() : nfix;
  std::vector<ffi_type *> dummy;
  for (unsigned k = 0; k < nargs; k++) { Type *t = CB ? CB->getArgOperand(k)->getType() : FT->getParamType(k); u32 n = flatCount(t);
    if (CB && CB->isByValArgument(k)) fatal("byval native arg to " + name);
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { if (n == 2 && vt->getElementType()->isFloatTy()) { u64 x = (u32)CI(args[ai]) | ((u64)(u32)CI(args[ai + 1]) << 32); store.push_back({x, 0}); at.push_back(&ffi_type_double); ai += 2; continue; } fatal("vector native arg"); }
    if (n != 1) fatal("aggregate native arg to " + name);
    const Val &v = args[ai++]; if (v.s && v.s->isF) fatal("symbolic float passed to native " + demangle(name)); u64 x = v.s ? concretize(v.s, 32) : v.c; store.push_back({x, v.hi});
    if (t->isFloatTy()) at.push_back(&ffi_type_float); else if (t->isDoubleTy()) at.push_back(&ffi_type_double); else if (t->isX86_FP80Ty()) at.push_back(&ffi_type_longdouble); else if (t->isPointerTy()) at.push_back(&ffi_type_pointer); else { u32 w = tw(t); at.push_back(w <= 8 ? &ffi_type_uint8 : w <= 16 ? &ffi_type_uint16 : w <= 32 ? &ffi_type_uint32 : &ffi_type_uint64); } }
  for (auto &s : store) av.push_back(&s);
  Type *rt = FT->getReturnType(); ffi_type *frt = &ffi_type_void; ffi_type st{}; ffi_type *els[9]; 
  if (rt->isFloatTy()) frt = &ffi_type_float; else if (rt->isDoubleTy()) frt = &ffi_type_double; else if (rt->isX86_FP80Ty()) frt = &ffi_type_longdouble; else if (rt->isPointerTy() || (rt->isIntegerTy() && tw(rt) <= 64)) frt = &ffi_type_uint64; else if (rt->isVoidTy()) ; else if (auto *vt = dyn_cast<FixedVectorType>(rt)) { if (DLp->getTypeSizeInBits(vt) != 64) fatal("vector ret"); frt = &ffi_type_double; } else if (isa<StructType>(rt)) { auto &fl = flat(rt); if (fl.size() > 8) fatal("struct ret"); size_t k = 0; for (auto &e : fl) { els[k++] = e.t->isFloatTy() ? &ffi_type_float : e.t->isDoubleTy() ? &ffi_type_double : e.t->isPointerTy() ? &ffi_type_pointer : tw(e.t) <= 8 ? &ffi_type_uint8 : tw(e.t) <= 32 ? &ffi_type_uint32 : &ffi_type_uint64; } els[k] = nullptr; st.type = FFI_TYPE_STRUCT; st.elements = els; frt = &st; } else fatal("native ret type");
  ffi_cif cif; if (FT->isVarArg()) { if (ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, nfix, nargs, frt, at.data()) != FFI_OK) fatal("ffi"); } else if (ffi_prep_cif(&cif, FFI_DEFAULT_ABI, nargs, frt, at.data()) != FFI_OK) fatal("ffi");
  alignas(16) u64 rb[16] = {0};
  try { ffi_call(&cif, FFI_FN(fp), rb, av.data()); } catch (MergeAbort &) { throw; } catch (...) { auto ep = std::current_exception(); keepAlive.push_back(ep); pending.tinfo = (u64)ep.__cxa_exception_type(); void *o; memcpy(&o, &ep, 8); pending.obj = (u64)o; return UNWIND; }
  u32 rn = flatCount(rt); ret.resize(std::max(1u, rn));
  if (rt->isVoidTy()) return OK; if (isa<StructType>(rt) || rt->isVectorTy()) { auto &fl = flat(rt); for (u32 k = 0; k < rn; k++) { u64 v = 0; memcpy(&v, (char *)rb + fl[k].off, DLp->getTypeStoreSize(fl[k].t)); ret[k] = VC(v); } return OK; }
  if (rt->isX86_FP80Ty()) { ret[0].c = rb[0]; ret[0].hi = rb[1] & 0xFFFF; return OK; }
  ret[0] = VC(truncW(rb[0], tw(rt))); return OK;
}
