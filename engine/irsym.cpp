// irsym: symbolic executor for LLVM-18 bitcode on a native-address memory model, deciding with z3.
#include "tr.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <ffi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <semaphore.h>
#include <poll.h>
#include <signal.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <set>
#include <iostream>
#include <fstream>
#include <typeinfo>
#include <cxxabi.h>
#include <new>
#include <algorithm>
#include <setjmp.h>
using namespace llvm;
Exprs X;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// ------------------------------------------------------------------ shared state
struct Shared {
  std::atomic<u64> instrs, paths, forks, feasq, unsat, sat, unknown, solver_us, asserts, syntactic, events, merges, mergeAborts, truncated, symbranch, inconcl, paths_err;
  sem_t tokens; std::atomic<u64> logid;
  struct H { std::atomic<u64> paths, asserts, unsat, sat, unknown, reach, trunc, events, crashed, wit; } h[512];
  std::atomic<u64> labels[1 << 14]; // per (harness,label) hash: discharged
  u8 subprog[1 << 16];
  u8 nativefn[1 << 12];
};
static Shared *SH;
static int curH = -1; static std::string curHName; static int logfd = -1; static std::string outdir = "."; static double deadline = 0; static double now(); static void armAlarm() { double l = deadline - now() + 30; alarm(l < 5 ? 5 : (unsigned)l); } static u64 maxPaths = 20000; static int solverMs = 20000; static bool verbose = false; static u64 maxInstr = 2000000000ull;
static std::vector<pid_t> kids; static bool holdsToken = false;
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void logline(const std::string &s) { std::string l = s + "\n"; if (l.size() > 60000) l = l.substr(0, 59990) + "\n"; (void)!write(logfd, l.data(), l.size()); }
static void reapAll() { for (pid_t p : kids) { int st; if (waitpid(p, &st, 0) == p && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->h[curH].crashed++; logline("{\"t\":\"crash\",\"h\":\"" + curHName + "\",\"status\":" + std::to_string(st) + "}"); } } kids.clear(); }
[[noreturn]] static void pathEnd() { if (holdsToken) { holdsToken = false; sem_post(&SH->tokens); } reapAll(); _exit(0); }
[[noreturn]] static void fatal(const std::string &m) { logline("{\"t\":\"engine_error\",\"h\":\"" + curHName + "\",\"msg\":\"" + jesc(m) + "\"}"); if (verbose || curH < 0) fprintf(stderr, "irsym: %s\n", m.c_str()); if (curH < 0) _exit(3); SH->h[curH].trunc++; SH->inconcl++; pathEnd(); }

// ------------------------------------------------------------------ values
struct Val { u64 c = 0, hi = 0; Node *s = nullptr; };
static Val VC(u64 c) { Val v; v.c = c; return v; }
static u32 tw(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isPointerTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16; fatal("scalar width of odd type"); }
static bool isFl(Type *t) { return t->isFloatTy() || t->isDoubleTy(); }
static Node *N(const Val &v, Type *t) { if (v.s) return v.s; u32 w = tw(t); return isFl(t) ? X.fbits(v.c, w) : X.bv(v.c, w, v.hi); }
static Val VN(Node *n) { Val v; if (n->op == CONST) { v.c = n->k; v.hi = n->k2; } else v.s = n; return v; }

// ------------------------------------------------------------------ memory
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 24ull << 30;
static const u64 GLOB_BASE = ARENA, STACK_BASE = ARENA + (2ull << 30), HEAP_BASE = ARENA + (4ull << 30), CODE_BASE = 0x200000000000ull;
static u8 *gran; // 1 byte / 8
static u64 globTop = GLOB_BASE + 4096, stackTop = STACK_BASE + 4096, heapTop = HEAP_BASE + 4096;
static std::map<u64, u64> heapBlocks; static std::map<u64, u64> freedBlocks; static u64 allocCount = 0; static i64 failAt = -1; static u64 allocLimit = ~0ull; static u64 heapCap = 16ull << 30; static u64 liveBytes = 0;
static void markAddr(u64 p, u64 n) { u64 g = (p - ARENA) >> 3; u64 full = n >> 3; memset(gran + g, 8, full); if (n & 7) gran[g + full] = n & 7; }
static void markUn(u64 p, u64 n, u8 v = 0) { memset(gran + ((p - ARENA) >> 3), v, (n + 7) >> 3); }
static bool inArena(u64 a) { return a - ARENA < ARENA_SZ; }
static bool hostMapped(u64 a, u64 n) { static u64 cache[4096]; for (u64 pg = a >> 12; pg <= (a + n - 1) >> 12; pg++) { u64 &c = cache[pg & 4095]; if (c == pg) continue; unsigned char v; if (mincore((void *)(pg << 12), 4096, &v) != 0) return false; c = pg; } return true; } // memory of the host process itself (a library's data): only mapped pages
static bool addrOK(u64 a, u64 n) { if (n == 0) return true;
  if (inArena(a)) { if (n == 0) return true; for (u64 i = 0; i < n;) { u64 p = a + i; if (!inArena(p)) return false; u8 g = gran[(p - ARENA) >> 3]; if (g > 8 || (p & 7) >= g) return false; u64 step = 8 - (p & 7); if (step > n - i) { step = n - i; } if ((p & 7) + step > g) return false; i += step; } return true; }
  return a >= 65536 && !(a - CODE_BASE < (1ull << 32)) && a < 0x7ffffffff000ull && n < (1ull << 32) && hostMapped(a, n);
}
struct SB { Node *n; u32 i; };
struct SPage { SB b[4096]; u32 cnt; };
static SPage **arenaPages; static std::unordered_map<u64, SPage *> otherPages;
static SPage *page(u64 a, bool mk) {
  SPage **p; if (inArena(a)) p = &arenaPages[(a - ARENA) >> 12]; else { if (!mk) { if (otherPages.empty()) return nullptr; auto it = otherPages.find(a >> 12); return it == otherPages.end() ? nullptr : it->second; } p = &otherPages[a >> 12]; }
  if (!*p && mk) { *p = (SPage *)calloc(1, sizeof(SPage)); } return *p; }
struct UndoE { u64 a; u32 n; u8 fl; u8 old[16]; SB os[16]; };
static std::vector<UndoE> undoLog; static int speculating = 0;
struct MergeAbort { const char *why; };
static inline void specFail(const char *why) { if (speculating) throw MergeAbort{why}; }
static SB getSB(u64 a) { SPage *p = page(a, false); if (!p) return SB{nullptr, 0}; SB s = p->b[a & 4095]; if (s.n && *(u8 *)a != 0xA5) return SB{nullptr, 0}; return s; }
static void setSB(u64 a, SB s) { SPage *p = page(a, s.n != nullptr); if (p) p->b[a & 4095] = s; }
static void undoPush(u64 a, u32 n, bool fl) { while (n) { u32 k = n > 16 ? 16 : n; UndoE e; e.a = a; e.n = k; e.fl = fl; memcpy(e.old, (void *)a, k); for (u32 i = 0; i < k; i++) { SPage *p = page(a + i, false); e.os[i] = p ? p->b[(a + i) & 4095] : SB{nullptr, 0}; } undoLog.push_back(e); a += k; n -= k; } }
static void undoTo(size_t sz) { while (undoLog.size() > sz) { UndoE &e = undoLog.back(); memcpy((void *)e.a, e.old, e.n); for (u32 i = 0; i < e.n; i++) setSB(e.a + i, e.os[i]); undoLog.pop_back(); } }
static void clearShadow(u64 a, u64 n) { for (u64 p = a; p < a + n;) { SPage *pg = page(p, false); u64 end = (p | 4095) + 1; if (end > a + n) end = a + n; if (pg) for (; p < end; p++) pg->b[p & 4095].n = nullptr; else p = end; } }
static bool hasShadow(u64 a, u64 n) { for (u64 p = a; p < a + n;) { SPage *pg = page(p, false); u64 end = (p | 4095) + 1; if (end > a + n) end = a + n; if (pg) { for (; p < end; p++) if (pg->b[p & 4095].n && *(u8 *)p == 0xA5) return true; } else p = end; } return false; }
static void storeRaw(u64 a, u32 n, const Val &v, bool fl) { // n bytes, unchecked
  if (speculating) undoPush(a, n, fl);
  if (!v.s) { u64 t[2] = {v.c, v.hi}; memcpy((void *)a, t, n); SPage *p = page(a, false), *q = page(a + n - 1, false); if (p || q) clearShadow(a, n); }
  else { memset((void *)a, 0xA5, n); for (u32 i = 0; i < n; i++) setSB(a + i, SB{v.s, i}); }
}
static Val loadRaw(u64 a, u32 n, bool fl, u32 bits) {
  Val v; SPage *p = page(a, false), *q = page(a + n - 1, false);
  bool any = false; if (p || q) for (u32 i = 0; i < n; i++) if (getSB(a + i).n) { any = true; break; }
  if (!any) { u64 t[2] = {0, 0}; memcpy(t, (void *)a, n); v.c = t[0]; v.hi = t[1]; if (bits < 64) v.c &= (1ull << bits) - 1; return v; }
  SB s0 = getSB(a); bool whole = s0.n && s0.i == 0 && ((s0.n->w + 7) / 8) == n; for (u32 i = 1; whole && i < n; i++) { SB s = getSB(a + i); if (s.n != s0.n || s.i != i) whole = false; }
  Node *r;
  if (whole) { r = s0.n; if (!r->isF && r->w < n * 8) r = X.zext(r, n * 8); }
  else { r = nullptr; for (u32 i = 0; i < n; i++) { SB s = getSB(a + i); Node *b; if (s.n) { Node *m = s.n->isF ? X.f2bits(s.n) : s.n; if (s.i * 8 + 8 > m->w) m = X.zext(m, s.i * 8 + 8); b = X.extract(m, s.i * 8, 8); } else b = X.bv(*(u8 *)(a + i), 8); r = r ? X.concat(b, r) : b; } }
  if (fl) r = X.bits2f(r); else { r = X.f2bits(r); if (r->w != bits) r = X.extract(r, 0, bits); }
  return VN(r);
}
static void copyMem(u64 d, u64 s, u64 n) { // memmove semantic with shadow
  if (n == 0 || d == s) return;
  if (speculating) { if (n > 4096) throw MergeAbort{"big copy"}; undoPush(d, n, false); }
  if (!hasShadow(s, n)) { memmove((void *)d, (void *)s, n); clearShadow(d, n); return; }
  std::vector<SB> t(n); for (u64 i = 0; i < n; i++) t[i] = getSB(s + i); memmove((void *)d, (void *)s, n); for (u64 i = 0; i < n; i++) setSB(d + i, t[i]);
}
static u64 heapAlloc(u64 n, u64 al) {
  if (al < 16) al = 16; u64 rz = 64; if (n > 256) rz = 256; u64 p = (heapTop + rz + al - 1) & ~(al - 1); u64 end = p + n + rz; if (end > ARENA + ARENA_SZ) fatal("heap arena exhausted"); heapTop = (end + 15) & ~15ull; markAddr(p, n);
  if (n <= (1 << 20)) memset((void *)p, 0xCD, n); heapBlocks[p] = n; liveBytes += n; return p; }

// ------------------------------------------------------------------ path condition & solving
static z3::context *ZC; static Tr *pcTr; static z3::solver *pcS; static size_t pcSide = 0; static std::vector<Node *> pc; static bool pcHasFloat = false;
static bool hasF(Node *n) { static std::unordered_map<u32, bool> m; auto it = m.find(n->id); if (it != m.end()) return it->second; bool r = n->isF; for (int i = 0; i < n->n && !r; i++) r = hasF(n->a[i]); m[n->id] = r; return r; }
// interval facts about real-valued terms, learned from the path condition (used only to fold comparisons)
struct Iv { double lo, hi; };
static std::unordered_map<u32, Iv> varIv, ivMemo; static const double IVINF = INFINITY;
static Iv ivOf(Node *n) {
  if (n->op == CONST) { double v = Exprs::fval(n); if (v != v) return {-IVINF, IVINF}; return {v, v}; }
  auto it = ivMemo.find(n->id); if (it != ivMemo.end()) return it->second; Iv r{-IVINF, IVINF};
  auto wide = [](double lo, double hi) -> Iv { if (!(lo <= hi)) return {-IVINF, IVINF}; lo -= std::fabs(lo) * 1e-12; hi += std::fabs(hi) * 1e-12; return {lo != lo ? -IVINF : lo, hi != hi ? IVINF : hi}; };
  auto m = [](double a, double b) { return a == 0 || b == 0 ? 0 : a * b; };
  switch (n->op) {
    case FNEG: { Iv a = ivOf(n->a[0]); r = {-a.hi, -a.lo}; break; }
    case FEXT: case FTRUNC: r = ivOf(n->a[0]); break;
    case FADD: { Iv a = ivOf(n->a[0]), b = ivOf(n->a[1]); double lo = a.lo + b.lo, hi = a.hi + b.hi, e = 1e-12 * ((std::isinf(a.lo) || std::isinf(b.lo) ? 0 : std::fabs(a.lo) + std::fabs(b.lo)) + (std::isinf(a.hi) || std::isinf(b.hi) ? 0 : std::fabs(a.hi) + std::fabs(b.hi))); r = {lo - e, hi + e}; if (r.lo != r.lo) r.lo = -IVINF; if (r.hi != r.hi) r.hi = IVINF; break; }
    case FSUB: { Iv a = ivOf(n->a[0]), b = ivOf(n->a[1]); double lo = a.lo - b.hi, hi = a.hi - b.lo, e = 1e-12 * ((std::isinf(a.lo) || std::isinf(b.hi) ? 0 : std::fabs(a.lo) + std::fabs(b.hi)) + (std::isinf(a.hi) || std::isinf(b.lo) ? 0 : std::fabs(a.hi) + std::fabs(b.lo))); r = {lo - e, hi + e}; if (r.lo != r.lo) r.lo = -IVINF; if (r.hi != r.hi) r.hi = IVINF; break; }
    case FMUL: { Iv a = ivOf(n->a[0]), b = ivOf(n->a[1]); double p[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)}; double lo = p[0], hi = p[0]; for (double x : p) { lo = std::min(lo, x); hi = std::max(hi, x); } if (n->a[0] == n->a[1] && lo < 0) lo = 0; r = wide(lo, hi); break; }
    case FDIV: { Iv a = ivOf(n->a[0]), b = ivOf(n->a[1]); if (b.lo > 0 || b.hi < 0) { double il = 1 / b.hi, ih = 1 / b.lo; double p[4] = {m(a.lo, il), m(a.lo, ih), m(a.hi, il), m(a.hi, ih)}; double lo = p[0], hi = p[0]; for (double x : p) { lo = std::min(lo, x); hi = std::max(hi, x); } r = wide(lo, hi); } break; }
    case ITE: { Iv a = ivOf(n->a[1]), b = ivOf(n->a[2]); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
    case FN1: { Iv a = ivOf(n->a[0]); if (n->fn == F_EXP) r = {0, IVINF}; else if (n->fn == F_SQRT) r = {0, IVINF}; else if (n->fn == F_LOG && a.lo > 0) r = wide(std::log(a.lo), std::isinf(a.hi) ? IVINF : std::log(a.hi)); break; }
    default: break;
  }
  if (r.lo != r.lo) r.lo = -IVINF; if (r.hi != r.hi) r.hi = IVINF;
  auto v = varIv.find(n->id); if (v != varIv.end()) { r.lo = std::max(r.lo, v->second.lo); r.hi = std::min(r.hi, v->second.hi); if (!(r.lo <= r.hi)) r = {-IVINF, IVINF}; }
  ivMemo[n->id] = r; return r;
}
static void ivLearn(Node *c, bool pos) {
  if (c->op == AND && c->w == 1 && pos) { ivLearn(c->a[0], true); ivLearn(c->a[1], true); return; }
  if (c->op == OR && c->w == 1 && !pos) { ivLearn(c->a[0], false); ivLearn(c->a[1], false); return; }
  if (c->op == XOR && c->w == 1 && X.isC(c->a[1]) && c->a[1]->k) return ivLearn(c->a[0], !pos);
  if (c->op != FLT && c->op != FLE) return;
  Node *l = c->a[0], *h = c->a[1]; if (!pos) std::swap(l, h); // l <= h in every case
  auto up = [&](Node *n, double lo, double hi) { if (n->op == CONST) return; auto &v = varIv.emplace(n->id, Iv{-IVINF, IVINF}).first->second; if (lo > v.lo) v.lo = lo; if (hi < v.hi) v.hi = hi; ivMemo.clear(); };
  if (l->op == CONST && Exprs::fval(l) == Exprs::fval(l)) up(h, Exprs::fval(l), IVINF); if (h->op == CONST && Exprs::fval(h) == Exprs::fval(h)) up(l, -IVINF, Exprs::fval(h));
}
static Node *ivFold(Node *c) { // a comparison decided by the known intervals
  if (!X.realMode || (c->op != FLT && c->op != FLE && c->op != FEQ)) return c; Iv a = ivOf(c->a[0]), b = ivOf(c->a[1]);
  if (c->op == FLT) { if (a.hi < b.lo) return X.tru(); if (a.lo >= b.hi) return X.fls(); }
  else if (c->op == FLE) { if (a.hi <= b.lo) return X.tru(); if (a.lo > b.hi) return X.fls(); }
  else if (a.hi < b.lo || b.hi < a.lo) return X.fls();
  return c;
}
// the constants a term can evaluate to, when they are few (an over-approximation)
static bool leafSet(Node *n, std::set<u64> &o, std::unordered_map<u32, std::set<u64>> &memo, size_t lim) {
  if (n->isF || n->w > 64) return false; if (n->op == CONST) { o = {n->k}; return true; } auto it = memo.find(n->id); if (it != memo.end()) { o = it->second; return !o.empty(); }
  std::set<u64> r, a, b; bool ok = false;
  if (n->op == ITE) { ok = leafSet(n->a[1], a, memo, lim) && leafSet(n->a[2], b, memo, lim); if (ok) { r = a; r.insert(b.begin(), b.end()); } }
  else if (n->op == ZEXT) ok = leafSet(n->a[0], r, memo, lim);
  else if (n->op == SEXT) { ok = leafSet(n->a[0], a, memo, lim); for (u64 v : a) r.insert((u64)Exprs::sval(v, n->a[0]->w) & Exprs::mask(n->w)); }
  else if (n->op == EXTRACT) { ok = leafSet(n->a[0], a, memo, lim); for (u64 v : a) r.insert((v >> n->k) & Exprs::mask(n->w)); }
  else if (n->op == ADD || n->op == MUL || n->op == SHL || n->op == SUB) { ok = leafSet(n->a[0], a, memo, lim) && leafSet(n->a[1], b, memo, lim) && a.size() * b.size() <= lim; if (ok) for (u64 x : a) for (u64 y : b) { u64 z; Exprs::foldBV(n->op, x, y, n->w, z); r.insert(z); } }
  if (r.size() > lim) ok = false; if (!ok) r.clear(); memo[n->id] = r; o = r; return ok; }
// terms the path condition has decided
static std::unordered_map<u32, u64> learned;
static void eqLearn(Node *c, bool pos) {
  if (c->op == AND && c->w == 1 && pos) { eqLearn(c->a[0], true); eqLearn(c->a[1], true); return; }
  if (c->op == OR && c->w == 1 && !pos) { eqLearn(c->a[0], false); eqLearn(c->a[1], false); return; }
  if (c->op == XOR && c->w == 1 && X.isC(c->a[1]) && c->a[1]->k) return eqLearn(c->a[0], !pos);
  if (c->op != EQ || c->a[1]->op != CONST || c->a[0]->isF || c->a[0]->w > 64) return; Node *n = c->a[0];
  if (pos) { learned[n->id] = c->a[1]->k; return; } if (n->op != ITE) return;
  std::set<u64> o; std::unordered_map<u32, std::set<u64>> memo; if (leafSet(n, o, memo, 8)) { o.erase(c->a[1]->k); if (o.size() == 1) learned[n->id] = *o.begin(); } }
static bool known(Node *n, u64 &r) { if (learned.empty() || n->isF) return false; auto it = learned.find(n->id); if (it != learned.end()) { r = it->second; return true; } if (n->op == ZEXT && n->w <= 64) return known(n->a[0], r); if (n->op == EXTRACT && n->k == 0 && n->w <= 64 && known(n->a[0], r)) { r &= Exprs::mask(n->w); return true; } return false; }
static void pcAdd(Node *c) { if (c->op == CONST && c->k) return; pc.push_back(c); eqLearn(c, true); if (X.realMode) ivLearn(c, true); try { z3::expr e = pcTr->B(c); for (; pcSide < pcTr->side.size(); pcSide++) pcS->add(pcTr->side[pcSide]); pcS->add(e); } catch (Unsupported &u) { /* weaker pc: over-approximation */ } catch (z3::exception &e) { fatal(std::string("z3: ") + e.msg()); } }
static int feasible(Node *c) { // 1 yes, 0 no, 2 unknown
  if (c->op == CONST) return c->k != 0;
  static std::unordered_map<u64, int> cache; u64 key = ((u64)pc.size() << 40) ^ c->id; (void)key;
  SH->feasq++; double t = now(); int r = 2;
  try { pcS->push(); z3::expr e = pcTr->B(c); for (size_t i = pcSide; i < pcTr->side.size(); i++) pcS->add(pcTr->side[i]); pcS->add(e); auto k = pcS->check(); r = k == z3::sat ? 1 : k == z3::unsat ? 0 : 2; pcS->pop(); }
  catch (Unsupported &u) { pcS->pop(); r = 2; } catch (z3::exception &e) { fatal(std::string("z3 feas: ") + e.msg()); }
  SH->solver_us += (u64)((now() - t) * 1e6); return r;
}
typedef std::map<std::string, std::string> Model; // key -> value text
enum Res { R_UNSAT, R_SAT, R_UNK };
static std::string modelText(z3::model &m, Tr &tr) {
  std::string o;
  for (auto &v : X.vars) {
    z3::expr e = (v.isF && tr.real) ? ZC->real_const(v.key.c_str()) : v.w == 1 ? ZC->bool_const(v.key.c_str()) : ZC->bv_const(v.key.c_str(), v.w);
    z3::expr r = m.eval(e, true); std::string t;
    if (v.isF && tr.real) { double d = 0; if (r.is_numeral()) { std::string ds = r.get_decimal_string(20); if (!ds.empty() && ds.back() == '?') ds.pop_back(); d = strtod(ds.c_str(), nullptr); } else if (r.is_algebraic()) { std::string ds = r.get_decimal_string(20); if (!ds.empty() && ds.back() == '?') ds.pop_back(); d = strtod(ds.c_str(), nullptr); } char b[64]; snprintf(b, 64, "%.17g", d); t = std::string("f ") + b; }
    else if (v.w == 1) t = r.is_true() ? "u 1" : "u 0";
    else { u64 k = 0; if (r.is_numeral()) { std::string ds = r.to_string(); std::string dd = r.get_decimal_string(0); k = strtoull(dd.c_str(), nullptr, 10); } if (v.isF) { char b[64]; snprintf(b, 64, "%.17g", bitsToD(k, v.w)); t = std::string("f ") + b; } else t = "u " + std::to_string(k); }
    o += v.key + " " + t + "\n";
  }
  return o;
}
// case split over the conditions of if-then-else terms: every leaf is a conjunction without them
struct Split { double end; int leaves = 0; std::vector<z3::expr> model; std::string *out; Tr *tr;
  static bool hasIte(const z3::expr &e, std::unordered_map<unsigned, bool> &memo) { auto it = memo.find(e.id()); if (it != memo.end()) return it->second; bool r = false; if (e.is_app()) { if (e.decl().decl_kind() == Z3_OP_ITE && !e.is_bool()) r = true; else for (unsigned i = 0; i < e.num_args() && !r; i++) r = hasIte(e.arg(i), memo); } return memo[e.id()] = r; }
  static bool pick(const z3::expr &e, std::unordered_map<unsigned, bool> &memo, z3::expr &c) { if (!hasIte(e, memo)) return false; if (e.decl().decl_kind() == Z3_OP_ITE && !e.is_bool()) { if (!hasIte(e.arg(0), memo)) { c = e.arg(0); return true; } return pick(e.arg(0), memo, c); } for (unsigned i = 0; i < e.num_args(); i++) if (pick(e.arg(i), memo, c)) return true; return false; }
  Res go(std::vector<z3::expr> cs, int depth) {
    if (now() > end || ++leaves > 4000) return R_UNK; std::vector<z3::expr> d;
    for (auto &e : cs) { z3::params p(*ZC); p.set("som", true); z3::expr s = e.simplify(p); if (s.is_false()) return R_UNSAT; if (s.is_true()) continue; d.push_back(e.simplify()); }
    std::unordered_map<unsigned, bool> memo; z3::expr c = ZC->bool_val(true); bool f = false; for (auto it = d.rbegin(); it != d.rend() && !f; ++it) f = pick(*it, memo, c);
    { z3::solver s(*ZC); z3::params p(*ZC); p.set("timeout", f ? 150u : 4000u); s.set(p); for (auto &e : d) s.add(e); z3::check_result k; try { k = s.check(); } catch (z3::exception &) { k = z3::unknown; } if (k == z3::unsat) return R_UNSAT; if (k == z3::sat) { z3::model m = s.get_model(); *out = "sat\n" + modelText(m, *tr); return R_SAT; } if (!f) return R_UNK; }
    Res worst = R_UNSAT;
    for (int v = 0; v < 2; v++) { z3::expr_vector from(*ZC), to(*ZC); from.push_back(c); to.push_back(ZC->bool_val(v == 1)); auto d2 = d; for (auto &e : d2) e = e.substitute(from, to); d2.push_back(v ? c : !c); Res r = go(d2, depth + 1); if (r == R_SAT) return r; if (r == R_UNK) { worst = R_UNK; if (now() > end) break; } }
    return worst; } };
// check a conjunction in a child process under a wall-clock budget
static Res solve(std::vector<z3::expr> cs, Tr &tr, std::string *model, int ms) {
  double t0 = now(); Res res = R_UNK;
  try {
    z3::expr_vector ev(*ZC); for (auto &e : cs) ev.push_back(e);
    for (auto &e : cs) { z3::params p(*ZC); p.set("som", tr.real); z3::expr s = e.simplify(p); if (s.is_false()) { SH->solver_us += (u64)((now() - t0) * 1e6); return R_UNSAT; } }
  } catch (z3::exception &e) {}
  int pf[2]; if (pipe(pf)) fatal("pipe"); pid_t pid = fork();
  if (pid == 0) {
    close(pf[0]); struct rlimit rl{3ull << 30, 3ull << 30}; (void)rl;
    std::string out = "unknown\n";
    try {
      std::unordered_map<unsigned, bool> memo; bool ites = false; if (tr.real) for (auto &e : cs) ites = ites || Split::hasIte(e, memo);
      for (int st = 0; st < 4; st++) {
        if (st == 1 && ites) { Split sp; sp.end = now() + ms / 2000.0; std::string o; sp.out = &o; sp.tr = &tr; Res r = sp.go(cs, 0); if (r == R_UNSAT) { out = "unsat\n"; break; } if (r == R_SAT) { out = o; break; } }
        z3::solver s = (st == 0 || st == 3) ? z3::solver(*ZC) : (tr.real ? (z3::tactic(*ZC, "simplify") & z3::tactic(*ZC, "purify-arith") & z3::tactic(*ZC, "propagate-values") & z3::tactic(*ZC, "solve-eqs") & z3::tactic(*ZC, st == 1 ? "qfnra" : "smt")).mk_solver() : z3::tactic(*ZC, st == 1 ? "qffp" : "smt").mk_solver());
        z3::params p(*ZC); unsigned to = st == 0 ? (ites ? 700 : ms / 6 + 500) : st == 1 ? ms / 2 : ms / 3; p.set("timeout", to); s.set(p);
        for (auto &e : cs) s.add(e);
        z3::check_result k; try { k = s.check(); } catch (z3::exception &e) { continue; }
        if (k == z3::unsat) { out = "unsat\n"; break; }
        if (k == z3::sat) { z3::model m = s.get_model(); out = "sat\n" + modelText(m, tr); break; }
      }
    } catch (z3::exception &e) {}
    size_t off = 0; while (off < out.size()) { ssize_t k = write(pf[1], out.data() + off, out.size() - off); if (k <= 0) break; off += k; } _exit(0);
  }
  close(pf[1]); std::string got; double end = now() + ms / 1000.0 * 1.3 + 2; char buf[65536];
  for (;;) { pollfd pd{pf[0], POLLIN, 0}; int left = (int)((end - now()) * 1000); if (left <= 0) break; int k = poll(&pd, 1, left); if (k <= 0) break; ssize_t r = read(pf[0], buf, sizeof buf); if (r <= 0) { break; } got.append(buf, r); }
  close(pf[0]); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0);
  if (got.rfind("unsat", 0) == 0) res = R_UNSAT; else if (got.rfind("sat", 0) == 0) { res = R_SAT; if (model) *model = got.substr(4); }
  SH->solver_us += (u64)((now() - t0) * 1e6); return res;
}
static std::vector<z3::expr> pcExprs(Tr &tr) { std::vector<z3::expr> r; for (Node *n : pc) { try { r.push_back(tr.B(n)); } catch (Unsupported &) {} } return r; }
static std::vector<z3::expr> niceBounds(Tr &tr) { std::vector<z3::expr> r; if (!tr.real) return r; for (auto &v : X.vars) if (v.isF && tr.usedVars.count(v.n->k)) { z3::expr e = ZC->real_const(v.key.c_str()); r.push_back(e >= -3 && e <= 3); } return r; }
static std::atomic<u64> &labelCell(const std::string &l) { u64 h = std::hash<std::string>()(curHName + "|" + l); return SH->labels[h & ((1 << 14) - 1)]; }
static u64 evseq = 0;
static void writeCand(const std::string &kind, const std::string &label, const std::string &model, const std::string &extra) {
  u64 id = SH->logid++; std::string fn = outdir + "/cand-" + curHName + "-" + std::to_string(id) + ".txt"; std::ofstream f(fn); f << "# harness " << curHName << "\n# kind " << kind << "\n# label " << label << "\n# " << extra << "\n" << model; f.close();
  logline("{\"t\":\"cand\",\"h\":\"" + jesc(curHName) + "\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"file\":\"" + jesc(fn) + "\",\"info\":\"" + jesc(extra.substr(0, 1500)) + "\"}"); }
static std::string pcModel(Res *res = nullptr) { Tr tr(*ZC, X.realMode); std::string m; try { auto cs = pcExprs(tr); for (auto &s : tr.side) cs.push_back(s); auto c2 = cs; for (auto &b : niceBounds(tr)) c2.push_back(b); Res r = solve(c2, tr, &m, 5000); if (r != R_SAT) r = solve(cs, tr, &m, solverMs); if (res) *res = r; } catch (Unsupported &) {} return m; }
// inputs driving the first completed path of a harness: replayed natively to validate the encoding
static void witness() {
  if (SH->h[curH].wit.fetch_add(1)) return; Tr tr(*ZC, X.realMode); std::string m; bool ok = false;
  try { auto cs = pcExprs(tr); for (auto &s : tr.side) cs.push_back(s); auto c2 = cs; if (tr.real) { u64 h = 777; for (auto &v : X.vars) if (v.isF) { h = h * 6364136223846793005ull + 1442695040888963407ull; int q = (int)((h >> 33) % 25) - 12; c2.push_back(ZC->real_const(v.key.c_str()) == ZC->real_val((q * 2 + 1) * 1024 + (int)((h >> 13) & 1023), 16384)); } }
    ok = solve(c2, tr, &m, 2000) == R_SAT || solve(cs, tr, &m, 2000) == R_SAT; } catch (Unsupported &) {}
  if (!ok) return; std::string fn = outdir + "/wit-" + curHName + ".txt"; std::ofstream f(fn); f << "# harness " << curHName << "\n" << m; }
// A path that reached an error (OOB access, failed library assertion, abort, uncaught exception ...)
static bool eventsFatal = true;
[[noreturn]] static void event(const std::string &kind, const std::string &info) {
  specFail("event"); SH->events++; SH->h[curH].events++;
  // confirm path condition satisfiable (paths may be explored on 'unknown')
  Res res = R_UNK; std::string m = pcModel(&res); if (res == R_UNSAT) { SH->events--; SH->h[curH].events--; pathEnd(); } writeCand(kind, kind, m, info); SH->h[curH].paths++; SH->paths++; pathEnd();
}
static void inconclusive(const std::string &label, const std::string &why) { SH->inconcl++; SH->h[curH].unknown++; SH->unknown++; logline("{\"t\":\"inconclusive\",\"h\":\"" + jesc(curHName) + "\",\"label\":\"" + jesc(label) + "\",\"why\":\"" + jesc(why.substr(0, 600)) + "\"}"); }

// fork over exclusive alternatives; returns the index this process continues with
static int chooseAlt(const std::vector<Node *> &alts) {
  specFail("fork"); std::vector<int> ok; for (size_t i = 0; i < alts.size(); i++) if (feasible(alts[i])) ok.push_back(i);
  if (ok.empty()) { pathEnd(); }
  for (size_t k = 0; k + 1 < ok.size(); k++) {
    if (now() > deadline || SH->forks > maxPaths) { SH->truncated++; SH->h[curH].trunc++; logline("{\"t\":\"truncated\",\"h\":\"" + curHName + "\"}"); pathEnd(); }
    SH->forks++; bool tok = sem_trywait(&SH->tokens) == 0; pid_t p = fork();
    if (p == 0) { armAlarm(); kids.clear(); holdsToken = tok; pcAdd(alts[ok[k]]); return ok[k]; }
    if (p < 0) fatal("fork failed");
    if (tok) kids.push_back(p); else { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->h[curH].crashed++; logline("{\"t\":\"crash\",\"h\":\"" + curHName + "\",\"status\":" + std::to_string(st) + "}"); } }
  }
  pcAdd(alts[ok.back()]); return ok.back();
}
static bool branchOn(Node *c) { if (c->op == CONST) return c->k; return chooseAlt({c, X.bnot(c)}) == 0; }
// enumerate feasible values of a term
static std::vector<u64> valuesOf(Node *n, size_t lim) {
  specFail("values"); std::vector<u64> r; { std::set<u64> ls; std::unordered_map<u32, std::set<u64>> memo; if (leafSet(n, ls, memo, 8)) { for (u64 v : ls) if (feasible(X.cmp(EQ, n, X.bv(v, n->w)))) r.push_back(v); return r; } } pcS->push(); double t = now();
  try { z3::expr e = pcTr->V(n); for (size_t i = pcSide; i < pcTr->side.size(); i++) pcS->add(pcTr->side[i]);
    while (r.size() <= lim) { SH->feasq++; auto k = pcS->check(); if (k != z3::sat) { if (k == z3::unknown) { pcS->pop(); fatal("unknown while enumerating values of " + show(n, 4)); } break; } z3::model m = pcS->get_model(); z3::expr v = m.eval(e, true); u64 x = strtoull(v.get_decimal_string(0).c_str(), nullptr, 10); r.push_back(x); pcS->add(e != ZC->bv_val((uint64_t)x, n->w)); } }
  catch (Unsupported &u) { pcS->pop(); fatal("cannot enumerate: " + u.what); } catch (z3::exception &e) { fatal(std::string("z3 enum: ") + e.msg()); }
  pcS->pop(); SH->solver_us += (u64)((now() - t) * 1e6); return r;
}
static u64 concretize(Node *n, size_t lim = 300) {
  if (n->op == CONST) return n->k; specFail("concretize"); if (n->isF) n = X.f2bits(n);
  auto vs = valuesOf(n, lim); if (vs.size() > lim) fatal("too many values when concretising " + show(n, 5)); if (vs.empty()) pathEnd(); std::sort(vs.begin(), vs.end());
  std::vector<Node *> alts; for (u64 v : vs) alts.push_back(X.cmp(EQ, n, X.bv(v, n->w))); return vs[chooseAlt(alts)];
}
static u64 CI(const Val &v) { return v.s ? concretize(v.s) : v.c; }

// address resolution: list of (guard, address)
struct AddrAlt { Node *g; u64 a; };
static void leavesOf(Node *n, Node *g, std::vector<AddrAlt> &o) { if (n->op == CONST) { for (auto &x : o) if (x.a == n->k) { x.g = X.bin(OR, x.g, g); return; } o.push_back({g, n->k}); return; } leavesOf(n->a[1], X.bin(AND, g, n->a[0]), o); leavesOf(n->a[2], X.bin(AND, g, X.bnot(n->a[0])), o); }
static std::vector<AddrAlt> resolve(Node *n) {
  std::vector<AddrAlt> o; if (Exprs::Tbl t; Exprs::table(n, t)) { std::set<u64> vs; for (auto &x : t.e) vs.insert(x.second); vs.insert(t.def); if (vs.size() <= 300) { for (u64 v : vs) o.push_back({X.tguard(t, [&](u64 q) { return q == v; }), v}); return o; } }
  if (Exprs::constLeaves(n, 4096)) { leavesOf(n, X.tru(), o); if (o.size() <= 256) return o; o.clear(); }
  if (Node *v = Exprs::narrow(n)) { std::map<u64, std::vector<u64>> by; bool ok = true; for (u64 k = 0; k < (1ull << v->w) && ok; k++) { std::unordered_map<u32, u64> memo; u64 r; ok = Exprs::evalAt(n, k, memo, r); if (ok) by[r].push_back(k); } if (ok && by.size() <= 300) { for (auto &x : by) { Node *g = X.fls(); if (x.second.size() > (1ull << v->w) / 2) { for (auto &y : by) if (y.first != x.first) for (u64 k : y.second) g = X.bin(OR, g, X.cmp(EQ, v, X.bv(k, v->w))); g = X.bnot(g); } else for (u64 k : x.second) g = X.bin(OR, g, X.cmp(EQ, v, X.bv(k, v->w))); o.push_back({g, x.first}); } return o; } }
  auto vs = valuesOf(n, 256); if (vs.size() > 256) fatal("symbolic address with more than 256 values: " + show(n, 5)); if (vs.empty()) pathEnd();
  for (u64 v : vs) o.push_back({X.cmp(EQ, n, X.bv(v, 64)), v}); return o;
}
static std::string whereStr();
static void oob(u64 a, u64 n, const char *what) { std::string s = std::string(what) + " of " + std::to_string(n) + " bytes at invalid address " + std::to_string(a); auto it = heapBlocks.upper_bound(a); if (it != heapBlocks.begin() && inArena(a) && a >= HEAP_BASE) { --it; s += " (block start+" + std::to_string((i64)(a - it->first)) + " of " + std::to_string(it->second) + "-byte block)"; } event("memory", s + " in " + whereStr()); }
// ------------------------------------------------------------------ data races (threads run eagerly; every pair of unordered accesses is compared)
static bool raceOn = false; static int raceAtomic = 0; static u32 thrCur = 0, thrCount = 0; static std::set<u32> thrLive; static std::map<u32, u32> thrParent, thrInto; static std::map<u32, u64> thrBase; static std::set<u64> locksHeld;
struct RAcc { u32 tid; u8 r, w; u64 lk; }; static std::unordered_map<u64, std::vector<RAcc>> raceMap; static std::set<std::string> raceSeen;
static u32 thrOwner(u32 t) { while (t) { auto i = thrInto.find(t); if (i == thrInto.end()) return t; t = i->second; } return 0; }
static bool thrAnc(u32 a, u32 c) { while (c) { if (a == c) return true; c = thrParent[c]; } return a == 0; }
static void raceReport(u64 a, bool wr, u32 o) {
  std::string w = whereStr(); if (!raceSeen.insert(w).second || SH->h[curH].events > 12) return; if (speculating) { raceSeen.erase(w); throw MergeAbort{"race"}; }
  Res res = R_UNK; std::string m = pcModel(&res); if (res == R_UNSAT) return; SH->events++; SH->h[curH].events++;
  writeCand("race", "race", m, std::string(wr ? "write to " : "read of ") + std::to_string(a) + " by " + (thrCur ? "thread " + std::to_string(thrCur) : std::string("the spawning thread")) + " is not ordered with an access by thread " + std::to_string(o) + " in " + w); }
static void raceAcc(u64 a, u64 n, bool wr) {
  if (raceAtomic) return; if (thrCur && a >= thrBase[thrCur] && a < HEAP_BASE) return; u64 lk = 0; for (u64 l : locksHeld) lk = l;
  for (u64 p = a; p < a + n;) { u64 k = p & ~7ull, e = std::min(k + 8, a + n); u8 m = 0; for (u64 q = p; q < e; q++) m |= 1u << (q & 7); p = e;
    auto it = raceMap.find(k); RAcc *own = nullptr;
    if (it != raceMap.end()) for (auto &x : it->second) { u32 o = thrOwner(x.tid); if (o == 0 || thrAnc(o, thrCur)) { if (o == thrCur && o && x.lk == lk) own = &x; continue; } if (lk && lk == x.lk) continue; if ((wr && ((x.r | x.w) & m)) || (!wr && (x.w & m))) raceReport(a, wr, o); }
    if (!thrCur) continue; if (own) { (wr ? own->w : own->r) |= m; } else raceMap[k].push_back(RAcc{thrCur, (u8)(wr ? 0 : m), (u8)(wr ? m : 0), lk}); } }
static inline void race(u64 a, u64 n, bool wr) { if (raceOn && n) raceAcc(a, n, wr); }
static Val loadVal(const Val &p, Type *t, const DataLayout &DL) {
  u32 n = DL.getTypeStoreSize(t), w = tw(t); bool fl = isFl(t);
  if (!p.s) { if (!addrOK(p.c, n)) oob(p.c, n, "read"); race(p.c, n, false); return loadRaw(p.c, n, fl, w); }
  auto as = resolve(p.s); std::vector<AddrAlt> good;
  for (auto &x : as) { if (!addrOK(x.a, n)) { if (speculating) throw MergeAbort{"oob"}; if (feasible(x.g)) { if (as.size() == 1) oob(x.a, n, "read"); if (branchOn(x.g)) oob(x.a, n, "read"); } } else good.push_back(x); }
  if (good.empty()) pathEnd();
  if (good.size() > 6 && !fl) { std::vector<u64> ks; std::vector<Node *> ns; Node *v = nullptr; bool ok = true; for (auto &x : good) { Node *g = x.g; ok = ok && g->op == EQ && g->a[1]->op == CONST && (!v || v == g->a[0]) && g->a[0]->w <= 12 && g->a[0]->w > 1; if (!ok) break; v = g->a[0]; ks.push_back(g->a[1]->k); ns.push_back(N(loadRaw(x.a, n, fl, w), t)); } if (ok) if (Node *r = X.general(v, ks, ns)) return VN(r); }
  Node *r = nullptr; for (auto &x : good) { Node *v = N(loadRaw(x.a, n, fl, w), t); r = r ? X.ite(x.g, v, r) : v; } return VN(X.closeTable(r));
}
static void storeVal(const Val &p, const Val &v, Type *t, const DataLayout &DL) {
  u32 n = DL.getTypeStoreSize(t); bool fl = isFl(t);
  if (!p.s) { if (!addrOK(p.c, n)) oob(p.c, n, "write"); race(p.c, n, true); storeRaw(p.c, n, v, fl); return; }
  auto as = resolve(p.s); std::vector<AddrAlt> good;
  for (auto &x : as) { if (!addrOK(x.a, n)) { if (speculating) throw MergeAbort{"oob"}; if (feasible(x.g)) { if (as.size() == 1) oob(x.a, n, "write"); if (branchOn(x.g)) oob(x.a, n, "write"); } } else good.push_back(x); }
  if (good.empty()) pathEnd();
  for (auto &x : good) { Node *o = N(loadRaw(x.a, n, fl, tw(t)), t); Val nv = VN(X.ite(x.g, N(v, t), o)); storeRaw(x.a, n, nv, fl); }
}

// ------------------------------------------------------------------ module
static Module *M; static const DataLayout *DLp; static LLVMContext LC;
static std::unordered_map<const GlobalValue *, u64> gaddr; static std::unordered_map<u64, Function *> codeAt;
static std::unordered_map<const DISubprogram *, u32> spId; static std::vector<std::string> spName;
static u32 flatCount(Type *t) { if (auto s = dyn_cast<StructType>(t)) { u32 n = 0; for (auto e : s->elements()) n += flatCount(e); return n; } if (auto a = dyn_cast<ArrayType>(t)) return a->getNumElements() * flatCount(a->getElementType()); if (auto v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * flatCount(v->getElementType()); if (t->isVoidTy()) return 0; return 1; }
struct FlatE { u64 off; Type *t; };
static void flatten(Type *t, u64 off, std::vector<FlatE> &o) {
  if (auto s = dyn_cast<StructType>(t)) { auto sl = DLp->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + sl->getElementOffset(i), o); return; }
  if (auto a = dyn_cast<ArrayType>(t)) { u64 sz = DLp->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * sz, o); return; }
  if (auto v = dyn_cast<FixedVectorType>(t)) { u64 sz = DLp->getTypeSizeInBits(v->getElementType()) / 8; for (u64 i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * sz, o); return; }
  o.push_back({off, t}); }
static std::unordered_map<Type *, std::vector<FlatE>> flatCache;
static const std::vector<FlatE> &flat(Type *t) { auto it = flatCache.find(t); if (it != flatCache.end()) return it->second; auto &v = flatCache[t]; flatten(t, 0, v); return v; }

static std::map<std::string, int> extHandlers; // name -> handler id (function table below)
struct CallCtx { Function *F; CallBase *CB; FunctionType *FT; std::vector<Val> a; Val ret[32]; std::string name; };
enum St { OK, UNWIND };
typedef St (*Handler)(CallCtx &);
static std::unordered_map<std::string, Handler> handlers; static std::unordered_map<u64, std::pair<std::string, Handler>> nativeToHandler;
static Handler findHandler(const std::string &n);

static Val constVal1(const Constant *C);
static void constFlat(const Constant *C, std::vector<Val> &o) {
  Type *t = C->getType();
  if (flatCount(t) == 0 && !t->isVoidTy()) return;
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { u32 n = flatCount(t); for (u32 i = 0; i < n; i++) o.push_back(Val()); return; }
  if (auto *a = dyn_cast<ConstantAggregate>(C)) { for (auto &op : a->operands()) constFlat(cast<Constant>(op), o); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < d->getNumElements(); i++) constFlat(d->getElementAsConstant(i), o); return; }
  o.push_back(constVal1(C));
}
static u64 addrOfGlobal(const GlobalValue *g) { if (auto *al = dyn_cast<GlobalAlias>(g)) { Val v = constVal1(al->getAliasee()); return v.c; } auto it = gaddr.find(g); if (it == gaddr.end()) fatal("no address for global " + g->getName().str()); return it->second; }
static u64 truncW(u64 v, u32 w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static Val constVal1(const Constant *C) {
  Type *t = C->getType();
  if (auto *i = dyn_cast<ConstantInt>(C)) { Val v; const APInt &a = i->getValue(); v.c = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1]; return v; }
  if (auto *f = dyn_cast<ConstantFP>(C)) { APInt a = f->getValueAPF().bitcastToAPInt(); Val v; v.c = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1]; return v; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantTokenNone>(C)) return Val();
  if (auto *g = dyn_cast<GlobalValue>(C)) return VC(addrOfGlobal(g));
  if (auto *e = dyn_cast<ConstantExpr>(C)) {
    auto op = [&](int i) { return constVal1(e->getOperand(i)).c; };
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(e); APInt off(64, 0); if (!g->accumulateConstantOffset(*DLp, off)) fatal("const gep"); return VC(op(0) + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return VC(truncW(op(0), tw(t)));
      case Instruction::Add: return VC(truncW(op(0) + op(1), tw(t))); case Instruction::Sub: return VC(truncW(op(0) - op(1), tw(t))); case Instruction::Trunc: return VC(truncW(op(0), tw(t)));
      case Instruction::ICmp: { auto p = (CmpInst::Predicate)e->getPredicate(); if (p == CmpInst::ICMP_EQ) return VC(op(0) == op(1)); if (p == CmpInst::ICMP_NE) return VC(op(0) != op(1)); break; }
      case Instruction::And: return VC(op(0) & op(1)); case Instruction::Or: return VC(op(0) | op(1)); case Instruction::Xor: return VC(op(0) ^ op(1)); case Instruction::LShr: return VC(op(0) >> op(1)); case Instruction::Mul: return VC(op(0) * op(1));
      default: break;
    }
    fatal("constant expression opcode " + std::string(e->getOpcodeName()));
  }
  std::string s; raw_string_ostream os(s); C->print(os); fatal("constant " + s);
}
// ------------------------------------------------------------------ compiled functions
struct Ins { u16 op; Instruction *I; i32 dst; std::vector<i32> o; Type *t; u32 lanes; Type *et; u64 k; std::vector<u64> sc; };
struct Blk { std::vector<Ins> ins; BasicBlock *bb; int idx; std::vector<u32> sps; bool seen = false; int ipdom = -1; };
struct Fn_ { Function *F; std::vector<Blk> b; std::vector<Val> consts; u32 nslots; std::vector<i32> argSlot; std::unordered_map<const BasicBlock *, int> bidx; std::vector<u32> noMerge; };
static std::unordered_map<Function *, Fn_ *> fcache;
typedef unsigned short u16_;
struct Compiler {
  Fn_ *f; std::unordered_map<const Value *, i32> slot; std::unordered_map<const Constant *, i32> cidx;
  i32 use(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cidx.find(c); if (it != cidx.end()) return it->second; std::vector<Val> vs; constFlat(c, vs); i32 id = -(i32)f->consts.size() - 1; for (auto &x : vs) f->consts.push_back(x); if (vs.empty()) f->consts.push_back(Val()); cidx[c] = id; return id; }
    auto it = slot.find(v); if (it == slot.end()) return 0; return it->second; }
};
static Fn_ *compile(Function *F) {
  auto it = fcache.find(F); if (it != fcache.end()) return it->second;
  Fn_ *f = new Fn_; f->F = F; Compiler c; c.f = f; u32 ns = 0;
  for (auto &a : F->args()) { f->argSlot.push_back(ns); c.slot[&a] = ns; ns += std::max(1u, flatCount(a.getType())); }
  for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) { if (i.getType()->isTokenTy() || i.getType()->isMetadataTy()) continue; c.slot[&i] = ns; ns += std::max(1u, flatCount(i.getType())); }
  f->nslots = ns; int bi = 0; for (auto &b : *F) f->bidx[&b] = bi++;
  PostDominatorTree *PDT = nullptr; 
  f->b.resize(bi); bi = 0;
  for (auto &b : *F) {
    Blk &B = f->b[bi]; B.bb = &b; B.idx = bi; bi++; std::set<u32> sps;
    for (auto &i : b) {
      if (DILocation *dl = i.getDebugLoc()) for (DILocation *l = dl; l; l = l->getInlinedAt()) if (auto *sp = l->getScope()->getSubprogram()) { auto si = spId.find(sp); if (si != spId.end()) sps.insert(si->second); }
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Ins n; n.I = &i; n.op = i.getOpcode(); n.t = i.getType(); n.dst = c.slot.count(&i) ? c.slot[&i] : -1; n.lanes = 1; n.et = n.t; n.k = 0;
      if (auto *v = dyn_cast<FixedVectorType>(n.t)) { n.lanes = v->getNumElements(); n.et = v->getElementType(); }
      if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        n.o.push_back(c.use(g->getPointerOperand())); i64 k = 0; 
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (StructType *st = gi.getStructTypeOrNull()) { k += DLp->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz = DLp->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) k += ci->getSExtValue() * (i64)sz; else { n.o.push_back(c.use(ix)); n.sc.push_back(sz); n.sc.push_back(tw(ix->getType())); } } }
        n.k = (u64)k;
      } else if (auto *p = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { n.o.push_back(c.use(p->getIncomingValue(k))); n.sc.push_back(f->bidx[p->getIncomingBlock(k)]); } n.k = flatCount(p->getType()); }
      else if (auto *cb = dyn_cast<CallBase>(&i)) { for (auto &a : cb->args()) n.o.push_back(a->getType()->isMetadataTy() ? 0 : c.use(a)); if (!cb->getCalledFunction() && !isa<InlineAsm>(cb->getCalledOperand())) n.k = (u64)(i64)c.use(cb->getCalledOperand()); }
      else for (auto &op : i.operands()) { if (isa<BasicBlock>(op)) continue; n.o.push_back(c.use(op)); }
      B.ins.push_back(std::move(n));
    }
    B.sps.assign(sps.begin(), sps.end());
  }
  { PostDominatorTree pd(*F); (void)PDT; for (auto &B : f->b) { auto *nd = pd.getNode(B.bb); if (nd && nd->getIDom() && nd->getIDom()->getBlock()) B.ipdom = f->bidx[nd->getIDom()->getBlock()]; } }
  f->noMerge.assign(f->b.size(), 0);
  fcache[F] = f; return f;
}
// development aid: IRSYM_COV=<file> records which source lines each harness executed
static const char *covOut = getenv("IRSYM_COV");
static void coverage(Blk &B) { std::set<std::string> ls; for (auto &n : B.ins) for (DILocation *l = n.I->getDebugLoc(); l; l = l->getInlinedAt()) { auto f = l->getFilename(); auto p = f.rfind("include/"); if (f.starts_with("/usr") || p == StringRef::npos || f.contains("3rd_party")) continue; ls.insert(curHName + " " + f.substr(p + 8).str() + ":" + std::to_string(l->getLine()) + "\n"); }
  std::string o; for (auto &x : ls) o += x; int fd = open(covOut, O_WRONLY | O_APPEND | O_CREAT, 0644); (void)!write(fd, o.data(), o.size()); close(fd); }
struct Frame { Fn_ *f; std::vector<Val> s; u64 stk0; int prev = -1; Frame *up; Instruction *at = nullptr; std::vector<Val> ret; };
static int depth = 0; static Frame *curF = nullptr; static std::vector<std::string> dbgStack;
static std::string locStr(Instruction *I) { if (!I) return "?"; if (DILocation *l = I->getDebugLoc()) { std::string s = l->getFilename().str() + ":" + std::to_string(l->getLine()); while (DILocation *u = l->getInlinedAt()) { l = u; if (l->getFilename().contains("include/") && s.size() < 300) s += " < " + l->getFilename().str() + ":" + std::to_string(l->getLine()); } return s; } return "?"; }
static std::string whereStr() { std::string s; int k = 0; for (Frame *f = curF; f && k < 6; f = f->up, k++) s += (k ? " << " : "") + demangle(f->f->F->getName().str()).substr(0, 80) + " @" + locStr(f->at); return s; }

// exceptions
struct Exc { u64 obj; u64 tinfo; }; static Exc pending; static std::vector<Exc> caught; static std::vector<std::exception_ptr> keepAlive;
static u64 instrCount = 0;

static Val fbinV(Op op, const Val &a, const Val &b, Type *t) {
  if (!a.s && !b.s) { if (t->isFloatTy()) { float x, y, r; u32 xa = a.c, xb = b.c; memcpy(&x, &xa, 4); memcpy(&y, &xb, 4); switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; default: r = fmodf(x, y); } u32 o; memcpy(&o, &r, 4); return VC(o); }
    if (t->isDoubleTy()) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; default: r = fmod(x, y); } u64 o; memcpy(&o, &r, 8); return VC(o); }
    if (t->isX86_FP80Ty()) { long double x = 0, y = 0, r; memcpy(&x, &a.c, 10); memcpy(&y, &b.c, 10); u64 ta[2] = {a.c, a.hi}, tb[2] = {b.c, b.hi}; memcpy(&x, ta, 10); memcpy(&y, tb, 10); switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; default: r = fmodl(x, y); } Val v; u64 o[2] = {0, 0}; memcpy(o, &r, 10); v.c = o[0]; v.hi = o[1]; return v; }
    fatal("float type"); }
  return VN(X.fbin(op, N(a, t), N(b, t)));
}
static long double ld(const Val &a) { long double x = 0; u64 ta[2] = {a.c, a.hi}; memcpy(&x, ta, 10); return x; }
static Val ldV(long double r) { Val v; u64 o[2] = {0, 0}; memcpy(o, &r, 10); v.c = o[0]; v.hi = o[1]; return v; }
static double fd(const Val &a, Type *t) { return bitsToD(a.c, t->isFloatTy() ? 32 : 64); }
static Val dV(double d, Type *t) { Val v; if (t->isFloatTy()) { float f = (float)d; u32 o; memcpy(&o, &f, 4); v.c = o; } else memcpy(&v.c, &d, 8); return v; }
static Val ibin(unsigned op, const Val &a, const Val &b, u32 w) {
  static const std::map<unsigned, Op> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
  if (!a.s && !b.s && w <= 64) {
    u64 x = a.c, y = b.c; i64 sx = Exprs::sval(x, w), sy = Exprs::sval(y, w);
    switch (op) { case Instruction::Add: return VC(truncW(x + y, w)); case Instruction::Sub: return VC(truncW(x - y, w)); case Instruction::Mul: return VC(truncW(x * y, w));
      case Instruction::And: return VC(x & y); case Instruction::Or: return VC(x | y); case Instruction::Xor: return VC(x ^ y);
      case Instruction::UDiv: if (!y) event("divzero", "integer division by zero in " + whereStr()); return VC(x / y); case Instruction::URem: if (!y) event("divzero", "integer division by zero in " + whereStr()); return VC(x % y);
      case Instruction::SDiv: if (!y) event("divzero", "integer division by zero in " + whereStr()); if (sy == -1) return VC(truncW(0 - x, w)); return VC(truncW(sx / sy, w)); case Instruction::SRem: if (!y) event("divzero", "integer division by zero in " + whereStr()); if (sy == -1) return VC(0); return VC(truncW(sx % sy, w));
      case Instruction::Shl: return VC(y >= w ? 0 : truncW(x << y, w)); case Instruction::LShr: return VC(y >= w ? 0 : x >> y); case Instruction::AShr: return VC(truncW((u64)(sx >> (y >= w ? w - 1 : y)), w)); }
  }
  if (!a.s && !b.s) { u128 x = ((u128)a.hi << 64) | a.c, y = ((u128)b.hi << 64) | b.c, r = 0; switch (op) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Shl: r = x << (u32)y; break; case Instruction::LShr: r = x >> (u32)y; break; case Instruction::AShr: r = (u128)((i128)x >> (u32)y); break; case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break; default: fatal("i128 op"); } if (w < 128) r &= (((u128)1) << w) - 1; Val v; v.c = (u64)r; v.hi = (u64)(r >> 64); return v; }
  Node *x = a.s ? a.s : X.bv(a.c, w, a.hi), *y = b.s ? b.s : X.bv(b.c, w, b.hi);
  if ((op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) && y->op != CONST) { if (speculating) throw MergeAbort{"div"}; Node *z = X.cmp(EQ, y, X.bv(0, w)); if (branchOn(z)) event("divzero", "integer division by zero in " + whereStr()); }
  return VN(X.bin(mp.at(op), x, y));
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, u32 w) {
  if (!a.s && !b.s && w <= 64) { u64 x = a.c, y = b.c; i64 sx = Exprs::sval(x, w), sy = Exprs::sval(y, w); bool r; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; } return VC(r); }
  if (!a.s && !b.s) { u128 x = ((u128)a.hi << 64) | a.c, y = ((u128)b.hi << 64) | b.c; switch (p) { case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y); case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_UGE: return VC(x >= y); case CmpInst::ICMP_ULE: return VC(x <= y); case CmpInst::ICMP_SLT: return VC((i128)x < (i128)y); case CmpInst::ICMP_SGT: return VC((i128)x > (i128)y); default: fatal("icmp128"); } }
  Node *x = a.s ? a.s : X.bv(a.c, w, a.hi), *y = b.s ? b.s : X.bv(b.c, w, b.hi);
  switch (p) { case CmpInst::ICMP_EQ: return VN(X.cmp(EQ, x, y)); case CmpInst::ICMP_NE: return VN(X.bnot(X.cmp(EQ, x, y))); case CmpInst::ICMP_UGT: return VN(X.cmp(ULT, y, x)); case CmpInst::ICMP_UGE: return VN(X.cmp(ULE, y, x)); case CmpInst::ICMP_ULT: return VN(X.cmp(ULT, x, y)); case CmpInst::ICMP_ULE: return VN(X.cmp(ULE, x, y)); case CmpInst::ICMP_SGT: return VN(X.cmp(SLT, y, x)); case CmpInst::ICMP_SGE: return VN(X.cmp(SLE, y, x)); case CmpInst::ICMP_SLT: return VN(X.cmp(SLT, x, y)); default: return VN(X.cmp(SLE, x, y)); }
}
static Val fcmpV(CmpInst::Predicate p, const Val &a, const Val &b, Type *t) {
  if (!a.s && !b.s) { long double x = t->isX86_FP80Ty() ? ld(a) : fd(a, t), y = t->isX86_FP80Ty() ? ld(b) : fd(b, t); bool u = x != x || y != y, r = false; switch (p) { case CmpInst::FCMP_OEQ: r = !u && x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break; case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break; case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break; case CmpInst::FCMP_UNE: r = u || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; } return VC(r); }
  Node *x = N(a, t), *y = N(b, t); auto FC = [](Op o, Node *x, Node *y) { return ivFold(X.fcmp(o, x, y)); }; auto NOT = [&](Node *n) { return X.bnot(n); };
  switch (p) { case CmpInst::FCMP_OEQ: return VN(FC(FEQ, x, y)); case CmpInst::FCMP_OGT: return VN(FC(FLT, y, x)); case CmpInst::FCMP_OGE: return VN(FC(FLE, y, x)); case CmpInst::FCMP_OLT: return VN(FC(FLT, x, y)); case CmpInst::FCMP_OLE: return VN(FC(FLE, x, y));
    case CmpInst::FCMP_ONE: return VN(X.bin(OR, FC(FLT, x, y), FC(FLT, y, x))); case CmpInst::FCMP_ORD: return VN(NOT(FC(FUNO, x, y))); case CmpInst::FCMP_UNO: return VN(FC(FUNO, x, y)); case CmpInst::FCMP_UEQ: return VN(NOT(X.bin(OR, FC(FLT, x, y), FC(FLT, y, x))));
    case CmpInst::FCMP_UGT: return VN(NOT(FC(FLE, x, y))); case CmpInst::FCMP_UGE: return VN(NOT(FC(FLT, x, y))); case CmpInst::FCMP_ULT: return VN(NOT(FC(FLE, y, x))); case CmpInst::FCMP_ULE: return VN(NOT(FC(FLT, y, x))); case CmpInst::FCMP_UNE: return VN(NOT(FC(FEQ, x, y))); case CmpInst::FCMP_TRUE: return VC(1); default: return VC(0); }
}
static Val castV(unsigned op, const Val &a, Type *s, Type *d) {
  u32 sw = tw(s), dw = tw(d);
  switch (op) {
    case Instruction::Trunc: if (!a.s) { Val v; v.c = truncW(a.c, dw); if (dw > 64) v.hi = a.hi; return v; } return VN(X.extract(a.s, 0, dw));
    case Instruction::ZExt: if (!a.s) return a; return VN(X.zext(a.s, dw));
    case Instruction::SExt: if (!a.s) { i64 v = Exprs::sval(a.c, sw); Val r; r.c = truncW((u64)v, dw); if (dw > 64) { r.hi = v < 0 ? ~0ull : 0; if (sw > 64) r.hi = a.hi; } return r; } return VN(X.sext(a.s, dw));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (!a.s) return VC(truncW(a.c, dw)); return VN(dw < sw ? X.extract(a.s, 0, dw) : X.zext(a.s, dw));
    case Instruction::BitCast: if (!a.s) return a; if (isFl(s) && !isFl(d)) return VN(X.f2bits(a.s)); if (!isFl(s) && isFl(d)) return VN(X.bits2f(a.s)); return a;
    case Instruction::FPExt: case Instruction::FPTrunc: if (!a.s) { if (s->isX86_FP80Ty()) return dV((double)ld(a), d); if (d->isX86_FP80Ty()) return ldV(fd(a, s)); return dV(fd(a, s), d); } if (!isFl(d)) fatal("fpext to long double of symbolic"); return VN(X.fcast(a.s, dw));
    case Instruction::SIToFP: if (!a.s) { i64 v = Exprs::sval(a.c, sw); if (d->isX86_FP80Ty()) return ldV((long double)v); if (d->isFloatTy()) { float f = (float)v; u32 o; memcpy(&o, &f, 4); return VC(o); } return dV((double)v, d); } if (X.realMode && a.s->op == F2SI && a.s->a[0]->op == FN1 && a.s->a[0]->fn >= F_FLOOR && a.s->a[0]->fn <= F_RINT) return VN(X.fcast(a.s->a[0], dw)); return VN(X.raw(SI2F, dw, true, {a.s}));
    case Instruction::UIToFP: if (!a.s) { u64 v = a.c; if (d->isX86_FP80Ty()) return ldV((long double)v); if (d->isFloatTy()) { float f = (float)v; u32 o; memcpy(&o, &f, 4); return VC(o); } return dV((double)v, d); } return VN(X.raw(UI2F, dw, true, {a.s}));
    case Instruction::FPToSI: if (!a.s) { long double v = s->isX86_FP80Ty() ? ld(a) : fd(a, s); return VC(truncW((u64)(i64)v, dw)); } if ((a.s->op == SI2F || a.s->op == UI2F) && a.s->a[0]->w <= 24) return VN(dw <= a.s->a[0]->w ? X.extract(a.s->a[0], 0, dw) : a.s->op == SI2F ? X.sext(a.s->a[0], dw) : X.zext(a.s->a[0], dw)); return VN(X.raw(F2SI, dw, false, {a.s}));
    case Instruction::FPToUI: if (!a.s) { long double v = s->isX86_FP80Ty() ? ld(a) : fd(a, s); return VC(truncW((u64)v, dw)); } if (a.s->op == UI2F && a.s->a[0]->w <= 24) return VN(dw <= a.s->a[0]->w ? X.extract(a.s->a[0], 0, dw) : X.zext(a.s->a[0], dw)); return VN(X.raw(F2UI, dw, false, {a.s}));
  }
  fatal("cast");
}
static St callF(Function *F, const std::vector<Val> &args, std::vector<Val> &ret);
static St callAddr(u64 addr, FunctionType *FT, CallBase *CB, const std::vector<Val> &args, std::vector<Val> &ret);
static St callExternal(const std::string &name, Function *F, u64 naddr, FunctionType *FT, CallBase *CB, const std::vector<Val> &args, std::vector<Val> &ret);

enum ExitKind { X_RET, X_STOP, X_UNWIND };
static ExitKind execBlocks(Frame &fr, int b, int stopB, std::vector<int> *trail);

static bool tryMerge(Frame &fr, int b, Node *c, int tb, int fb, int &joinOut, int &prevOut) {
  Fn_ *f = fr.f; int j = f->b[b].ipdom; if (j < 0 || f->noMerge[b] >= 3) return false; if (speculating > 12) return false;
  u64 budget0 = instrCount; (void)budget0;
  std::vector<Val> save = fr.s; int savePrev = fr.prev; Instruction *saveAt = fr.at; size_t u0 = undoLog.size(); u64 stk = stackTop; Frame *cf = curF; int depth0 = depth; size_t caught0 = caught.size();
  struct W { u64 a; u32 n; bool fl; Val v; }; std::vector<W> wr[2]; std::vector<Val> sl[2]; int pv[2];
  speculating++;
  for (int arm = 0; arm < 2; arm++) {
    bool ok = true; const char *why = "";
    try {
      int nb = arm == 0 ? tb : fb; fr.prev = b;
      if (nb != j) { u64 lim = instrCount + 200000; (void)lim; std::vector<int> trail; trail.push_back(b); ExitKind k = execBlocks(fr, nb, j, &trail); if (k != X_STOP) { ok = false; why = "exit"; } }
    } catch (MergeAbort &m) { ok = false; why = m.why; }
    curF = cf; fr.at = saveAt;
    if (!ok) { undoTo(u0); fr.s = save; fr.prev = savePrev; if (stackTop > stk) markUn(stk, stackTop - stk); stackTop = stk; depth = depth0; speculating--; caught.resize(caught0); f->noMerge[b]++; SH->mergeAborts++; (void)why; return false; }
    pv[arm] = fr.prev; // evaluate join phis for this arm
    sl[arm] = fr.s;
    if (pv[arm] != -2) { Blk &J = f->b[j]; std::vector<std::pair<i32, Val>> tmp; for (auto &in : J.ins) { if (in.op != Instruction::PHI) break; for (size_t k = 0; k < in.o.size(); k++) if ((int)in.sc[k] == pv[arm]) { for (u64 q = 0; q < in.k; q++) { i32 o = in.o[k]; tmp.push_back({in.dst + (i32)q, o >= 0 ? fr.s[o + q] : f->consts[-o - 1 + q]}); } break; } } for (auto &t : tmp) sl[arm][t.first] = t.second; }
    // collect writes
    { std::map<u64, u32> seen; for (size_t i = u0; i < undoLog.size(); i++) { UndoE &e = undoLog[i]; if (e.a >= stk && e.a < STACK_BASE + (1ull << 31) && e.a >= STACK_BASE) continue; auto it = seen.find(e.a); if (it != seen.end() && it->second >= e.n) continue; seen[e.a] = std::max<u32>(it == seen.end() ? 0 : it->second, e.n); wr[arm].push_back({e.a, e.n, (bool)e.fl, Val()}); } for (auto &w : wr[arm]) w.v = loadRaw(w.a, w.n, w.fl, w.n * 8); }
    undoTo(u0); fr.s = save; fr.prev = savePrev; stackTop = stk;
  }
  speculating--;
  // overlap check
  { std::map<u64, u32> all; bool bad = false; for (int a = 0; a < 2; a++) for (auto &w : wr[a]) { auto it = all.find(w.a); if (it != all.end() && it->second != w.n) bad = true; all[w.a] = w.n; } u64 end = 0; for (auto &x : all) { if (x.first < end) bad = true; end = x.first + x.second; } if (bad) { f->noMerge[b]++; return false; } }
  SH->merges++;
  // merge memory
  std::map<u64, std::array<W *, 2>> mm; for (int a = 0; a < 2; a++) for (auto &w : wr[a]) mm[w.a][a] = &w;
  for (auto &x : mm) { W *p = x.second[0], *q = x.second[1]; W *any = p ? p : q; bool fl = (!p || p->fl) && (!q || q->fl); u32 w = any->n * 8; Val o = loadRaw(any->a, any->n, fl, w); Val pvv = p ? p->v : o, qv = q ? q->v : o; auto asN = [&](const Val &v) { Node *n = v.s ? v.s : fl ? X.fbits(v.c, w) : X.bv(v.c, w, v.hi); if (fl) n = X.bits2f(n); else n = X.f2bits(n); return n; };
    if (w > 128 || (fl && w != 32 && w != 64)) fl = false; storeRaw(any->a, any->n, VN(X.ite(c, asN(pvv), asN(qv))), fl); }
  // merge registers: only those that are live matter; merge where both symbolic-kinds agree
  // a slot whose value differs and has a known scalar type is merged lazily through its type table
  static std::unordered_map<Fn_ *, std::vector<Type *>> slotTy; auto &st = slotTy[f]; if (st.empty()) { st.assign(f->nslots, nullptr); u32 ai = 0; for (auto &a : f->F->args()) { auto &fl = flat(a.getType()); for (size_t k = 0; k < fl.size(); k++) st[f->argSlot[ai] + k] = fl[k].t; ai++; } for (auto &B : f->b) for (auto &in : B.ins) if (in.dst >= 0) { auto &fl = flat(in.I->getType()); for (size_t k = 0; k < fl.size(); k++) st[in.dst + k] = fl[k].t; } }
  for (u32 i = 0; i < f->nslots; i++) { Val &x = sl[0][i], &y = sl[1][i]; if (x.s == y.s && x.c == y.c && x.hi == y.hi) { fr.s[i] = x; continue; } if (!st[i] || !(st[i]->isIntegerTy() || st[i]->isPointerTy() || isFl(st[i]))) { fr.s[i] = x; continue; } fr.s[i] = VN(X.ite(c, N(x, st[i]), N(y, st[i]))); }
  joinOut = j; prevOut = -2; return true; // -2: phis of the join block are already evaluated
}

static ExitKind execBlocks(Frame &fr, int b, int stopB, std::vector<int> *trail) {
  Fn_ *f = fr.f; auto G = [&](i32 o, u32 k = 0) -> const Val & { if (o >= 0) { Val &v = fr.s[o + k]; u64 z; if (v.s && known(v.s, z)) v = VC(z); return v; } return f->consts[-o - 1 + k]; };
  u64 specStart = instrCount;
  for (;;) {
    if (b == stopB) return X_STOP;
    if (trail) { for (int x : *trail) if (x == b && b == (*trail)[0]) throw MergeAbort{"loop"}; if (instrCount - specStart > 300000) throw MergeAbort{"budget"}; }
    Blk &B = f->b[b];
    if (!B.seen) { B.seen = true; for (u32 s : B.sps) SH->subprog[s] = 1; if (covOut) coverage(B); }
    size_t i = 0, ni = B.ins.size();
    if (fr.prev != -2) { // phis
      size_t np = 0; while (np < ni && B.ins[np].op == Instruction::PHI) np++;
      if (np) { Val tmpS[64]; std::vector<Val> tmpV; Val *tmp = tmpS; size_t tot = 0; for (size_t p = 0; p < np; p++) tot += B.ins[p].k; if (tot > 64) { tmpV.resize(tot); tmp = tmpV.data(); } size_t q = 0;
        for (size_t p = 0; p < np; p++) { Ins &in = B.ins[p]; size_t k = 0; for (; k < in.sc.size(); k++) if ((int)in.sc[k] == fr.prev) break; if (k == in.sc.size()) fatal("phi"); for (u64 z = 0; z < in.k; z++) tmp[q++] = G(in.o[k], z); }
        q = 0; for (size_t p = 0; p < np; p++) for (u64 z = 0; z < B.ins[p].k; z++) fr.s[B.ins[p].dst + z] = tmp[q++]; }
      i = np;
    } else { while (i < ni && B.ins[i].op == Instruction::PHI) i++; }
    instrCount += ni; int next = -1;
    if ((instrCount & 0xFFFFF) < ni) { if (now() > deadline || instrCount > maxInstr) { if (speculating) throw MergeAbort{"deadline"}; if (instrCount > maxInstr) { event("hang", "instruction budget exceeded in " + whereStr()); } SH->truncated++; SH->h[curH < 0 ? 511 : curH].trunc++; logline("{\"t\":\"truncated\",\"h\":\"" + curHName + "\",\"where\":\"" + jesc(whereStr()) + "\"}"); pathEnd(); } }
    for (; i < ni; i++) {
      Ins &in = B.ins[i]; fr.at = in.I;
      switch (in.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          u32 w = in.et->getIntegerBitWidth(); for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = ibin(in.op, G(in.o[0], l), G(in.o[1], l), w); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
          Op op = in.op == Instruction::FAdd ? FADD : in.op == Instruction::FSub ? FSUB : in.op == Instruction::FMul ? FMUL : in.op == Instruction::FDiv ? FDIV : FREM; for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = fbinV(op, G(in.o[0], l), G(in.o[1], l), in.et); break; }
        case Instruction::FNeg: for (u32 l = 0; l < in.lanes; l++) { const Val &a = G(in.o[0], l); if (a.s) fr.s[in.dst + l] = VN(X.fneg(a.s)); else if (in.et->isX86_FP80Ty()) fr.s[in.dst + l] = ldV(-ld(a)); else fr.s[in.dst + l] = VC(a.c ^ (1ull << (tw(in.et) - 1))); } break;
        case Instruction::ICmp: { auto *c = cast<ICmpInst>(in.I); Type *ot = c->getOperand(0)->getType()->getScalarType(); u32 w = tw(ot); for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = icmp(c->getPredicate(), G(in.o[0], l), G(in.o[1], l), w); break; }
        case Instruction::FCmp: { auto *c = cast<FCmpInst>(in.I); Type *ot = c->getOperand(0)->getType()->getScalarType(); for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = fcmpV(c->getPredicate(), G(in.o[0], l), G(in.o[1], l), ot); break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
          Type *s = in.I->getOperand(0)->getType()->getScalarType(); for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = castV(in.op, G(in.o[0], l), s, in.et); break; }
        case Instruction::BitCast: {
          Type *s = in.I->getOperand(0)->getType(); u32 sl = flatCount(s); Type *se = s->getScalarType();
          if (sl == in.lanes) { for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = castV(in.op, G(in.o[0], l), se, in.et); }
          else { // repack through little-endian concatenation
            u32 sw = tw(se), dw = tw(in.et); std::vector<Node *> bits; Node *all = nullptr; for (u32 l = 0; l < sl; l++) { Node *x = X.f2bits(N(G(in.o[0], l), se)); all = all ? X.concat(x, all) : x; } for (u32 l = 0; l < in.lanes; l++) { Node *x = X.extract(all, l * dw, dw); if (isFl(in.et)) x = X.bits2f(x); fr.s[in.dst + l] = VN(x); } (void)sw; }
          break; }
        case Instruction::Freeze: { u32 n = flatCount(in.t); for (u32 l = 0; l < n; l++) fr.s[in.dst + l] = G(in.o[0], l); break; }
        case Instruction::Select: { Type *ct = in.I->getOperand(0)->getType(); u32 n = flatCount(in.t); auto &ft = flat(in.t); bool vecC = ct->isVectorTy(); for (u32 l = 0; l < n; l++) { Val c = G(in.o[0], vecC ? l : 0); if (!c.s) fr.s[in.dst + l] = G(c.c ? in.o[1] : in.o[2], l); else fr.s[in.dst + l] = VN(X.ite(c.s, N(G(in.o[1], l), ft[l].t), N(G(in.o[2], l), ft[l].t))); } break; }
        case Instruction::GetElementPtr: {
          if (in.lanes != 1) fatal("vector gep"); Val p = G(in.o[0]); Node *sym = p.s; u64 c = p.c + in.k; if (sym) { c = in.k; } bool anyS = sym != nullptr; Node *acc = sym;
          for (size_t k = 1; k < in.o.size(); k++) { const Val &x = G(in.o[k]); u64 sz = in.sc[2 * (k - 1)]; u32 w = in.sc[2 * (k - 1) + 1]; if (!x.s) c += (u64)Exprs::sval(x.c, w) * sz; else { Node *t = X.bin(MUL, X.sext(x.s, 64), X.bv(sz, 64)); acc = acc ? X.bin(ADD, acc, t) : t; anyS = true; } }
          if (!anyS) fr.s[in.dst] = VC(c); else fr.s[in.dst] = VN(X.bin(ADD, acc, X.bv(c, 64))); break; }
        case Instruction::Alloca: { auto *a = cast<AllocaInst>(in.I); u64 n = DLp->getTypeAllocSize(a->getAllocatedType()); Val cnt = G(in.o[0]); n *= CI(cnt); u64 al = std::max<u64>(16, a->getAlign().value()); u64 p = (stackTop + 32 + al - 1) & ~(al - 1); stackTop = (p + n + 47) & ~15ull; if (stackTop > HEAP_BASE - 4096) event("stack", "stack overflow"); markAddr(p, n); clearShadow(p, n); memset((void *)p, 0xCB, n); fr.s[in.dst] = VC(p); break; }
        case Instruction::Load: { struct AG { bool b; AG(bool x) : b(x) { raceAtomic += b; } ~AG() { raceAtomic -= b; } } ag(raceOn && cast<LoadInst>(in.I)->isAtomic()); const Val p = G(in.o[0]); u32 n = flatCount(in.t); if (n == 1 && in.lanes == 1 && !in.t->isAggregateType()) fr.s[in.dst] = loadVal(p, in.t, *DLp); else { auto &ft = flat(in.t); for (u32 l = 0; l < n; l++) { Val q = p; if (q.s) q = VN(X.bin(ADD, q.s, X.bv(ft[l].off, 64))); else q.c += ft[l].off; fr.s[in.dst + l] = loadVal(q, ft[l].t, *DLp); } } break; }
        case Instruction::Store: { struct AG { bool b; AG(bool x) : b(x) { raceAtomic += b; } ~AG() { raceAtomic -= b; } } ag(raceOn && cast<StoreInst>(in.I)->isAtomic()); Type *t = in.I->getOperand(0)->getType(); const Val p = G(in.o[1]); u32 n = flatCount(t); if (n == 1 && !t->isAggregateType() && !t->isVectorTy()) storeVal(p, G(in.o[0]), t, *DLp); else { auto &ft = flat(t); for (u32 l = 0; l < n; l++) { Val q = p; if (q.s) q = VN(X.bin(ADD, q.s, X.bv(ft[l].off, 64))); else q.c += ft[l].off; storeVal(q, G(in.o[0], l), ft[l].t, *DLp); } } break; }
        case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(in.I); Type *t = e->getAggregateOperand()->getType(); u32 off = 0; for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += flatCount(st->getElementType(k)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * flatCount(at->getElementType()); t = at->getElementType(); } } u32 n = flatCount(t); for (u32 l = 0; l < n; l++) fr.s[in.dst + l] = G(in.o[0], off + l); break; }
        case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(in.I); Type *t = e->getAggregateOperand()->getType(); u32 tot = flatCount(t); u32 off = 0; for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += flatCount(st->getElementType(k)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * flatCount(at->getElementType()); t = at->getElementType(); } } for (u32 l = 0; l < tot; l++) fr.s[in.dst + l] = G(in.o[0], l); u32 n = flatCount(t); for (u32 l = 0; l < n; l++) fr.s[in.dst + off + l] = G(in.o[1], l); break; }
        case Instruction::ExtractElement: { u64 ix = CI(G(in.o[1])); fr.s[in.dst] = G(in.o[0], ix); break; }
        case Instruction::InsertElement: { u64 ix = CI(G(in.o[2])); for (u32 l = 0; l < in.lanes; l++) fr.s[in.dst + l] = G(in.o[0], l); fr.s[in.dst + ix] = G(in.o[1]); break; }
        case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(in.I); u32 n0 = flatCount(sv->getOperand(0)->getType()); for (u32 l = 0; l < in.lanes; l++) { int m = sv->getMaskValue(l); fr.s[in.dst + l] = m < 0 ? Val() : (u32)m < n0 ? G(in.o[0], m) : G(in.o[1], m - n0); } break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto *cb = cast<CallBase>(in.I); std::vector<Val> args; std::vector<Val> ret; unsigned ai = 0; for (auto &a : cb->args()) { u32 n = a->getType()->isMetadataTy() ? 0 : flatCount(a->getType()); for (u32 l = 0; l < n; l++) args.push_back(G(in.o[ai], l)); ai++; }
          St st; if (Function *cf = cb->getCalledFunction()) { if (cf->isDeclaration()) st = callExternal(cf->getName().str(), cf, 0, cb->getFunctionType(), cb, args, ret); else st = callF(cf, args, ret); }
          else if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { if (!ia->getAsmString().empty()) fatal("inline asm " + std::string(ia->getAsmString())); st = OK; }
          else { Val fp = G((i32)(i64)in.k); u64 a = CI(fp); if (a == 0) event("nullcall", "call through null function pointer in " + whereStr()); st = callAddr(a, cb->getFunctionType(), cb, args, ret); }
          curF = &fr;
          if (st == UNWIND) { if (in.op == Instruction::Invoke) { next = f->bidx[cast<InvokeInst>(cb)->getUnwindDest()]; break; } return X_UNWIND; }
          if (in.dst >= 0) for (size_t l = 0; l < ret.size() && l < std::max(1u, flatCount(in.t)); l++) fr.s[in.dst + l] = ret[l];
          if (in.op == Instruction::Invoke) next = f->bidx[cast<InvokeInst>(cb)->getNormalDest()];
          break; }
        case Instruction::LandingPad: {
          specFail("landingpad"); auto *lp = cast<LandingPadInst>(in.I); u64 sel = 0; bool hit = lp->isCleanup();
          for (unsigned k = 0; k < lp->getNumClauses() && !sel; k++) if (lp->isCatch(k)) { u64 ti = constVal1(lp->getClause(k)).c; if (ti == 0) { sel = 0x7fffffff; hit = true; } else { void *obj = (void *)pending.obj; const std::type_info *ct = (const std::type_info *)ti, *tt = (const std::type_info *)pending.tinfo; if (*ct == *tt || (tt && ct->__do_catch(tt, &obj, 1))) { sel = ti & 0x7fffffff; if (!sel) sel = 1; hit = true; } } } else hit = true;
          (void)hit; fr.s[in.dst] = VC(pending.obj); fr.s[in.dst + 1] = VC(sel == 0x7fffffff ? 1 : sel); break; }
        case Instruction::Resume: specFail("resume"); return X_UNWIND;
        case Instruction::Ret: if (in.o.size()) { u32 n = flatCount(in.I->getOperand(0)->getType()); fr.ret.resize(n); for (u32 l = 0; l < n; l++) fr.ret[l] = G(in.o[0], l); } return X_RET;
        case Instruction::Br: { auto *br = cast<BranchInst>(in.I); if (!br->isConditional()) { next = f->bidx[br->getSuccessor(0)]; break; } const Val c = G(in.o[0]); int tb = f->bidx[br->getSuccessor(0)], fb = f->bidx[br->getSuccessor(1)]; if (!c.s) { next = c.c ? tb : fb; break; }
          if (tb == fb) { next = tb; break; }
          SH->symbranch++; int j, pv; if (tryMerge(fr, b, c.s, tb, fb, j, pv)) { curF = &fr; if (j == stopB) { fr.prev = -2; return X_STOP; } next = j; fr.prev = -2; goto nextBlockNoPrev; }
          if (speculating) throw MergeAbort{"nested fork"};
          next = branchOn(c.s) ? tb : fb; break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(in.I); const Val c = G(in.o[0]); if (!c.s) { next = f->bidx[sw->getDefaultDest()]; for (auto &cs : sw->cases()) if (cs.getCaseValue()->getValue().getRawData()[0] == c.c) { next = f->bidx[cs.getCaseSuccessor()]; break; } break; }
          std::vector<Node *> alts; std::vector<int> tg; Node *none = X.tru(); for (auto &cs : sw->cases()) { Node *e = X.cmp(EQ, c.s, X.bv(cs.getCaseValue()->getZExtValue(), c.s->w)); alts.push_back(e); tg.push_back(f->bidx[cs.getCaseSuccessor()]); none = X.bin(AND, none, X.bnot(e)); } alts.push_back(none); tg.push_back(f->bidx[sw->getDefaultDest()]); next = tg[chooseAlt(alts)]; break; }
        case Instruction::Unreachable: event("unreachable", "reached unreachable code in " + whereStr());
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { struct AG { AG() { raceAtomic++; } ~AG() { raceAtomic--; } } ag; auto *r = cast<AtomicRMWInst>(in.I); Val p = G(in.o[0]), v = G(in.o[1]); Val old = loadVal(p, in.t, *DLp); Val nv; switch (r->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = ibin(Instruction::Add, old, v, tw(in.t)); break; case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, old, v, tw(in.t)); break; case AtomicRMWInst::And: nv = ibin(Instruction::And, old, v, tw(in.t)); break; case AtomicRMWInst::Or: nv = ibin(Instruction::Or, old, v, tw(in.t)); break; default: fatal("atomicrmw"); } storeVal(p, nv, in.t, *DLp); fr.s[in.dst] = old; break; }
        case Instruction::AtomicCmpXchg: { struct AG { AG() { raceAtomic++; } ~AG() { raceAtomic--; } } ag; Type *t = in.I->getOperand(1)->getType(); Val p = G(in.o[0]), e = G(in.o[1]), v = G(in.o[2]); Val old = loadVal(p, t, *DLp); Val eq = icmp(CmpInst::ICMP_EQ, old, e, tw(t)); bool ok = eq.s ? branchOn(eq.s) : eq.c; if (ok) storeVal(p, v, t, *DLp); fr.s[in.dst] = old; fr.s[in.dst + 1] = VC(ok); break; }
        default: fatal(std::string("instruction ") + in.I->getOpcodeName());
      }
      if (next >= 0) break;
    }
    if (next < 0) fatal("fell off block");
    fr.prev = b;
  nextBlockNoPrev:
    b = next;
  }
}
static St callF(Function *F, const std::vector<Val> &args, std::vector<Val> &ret) {
  { auto h = findHandler(F->getName().str()); if (h) { return callExternal(F->getName().str(), F, 0, F->getFunctionType(), nullptr, args, ret); } }
  if (++depth > 20000) event("recursion", "recursion too deep");
  Fn_ *f = compile(F); Frame fr; fr.f = f; fr.s.resize(f->nslots); fr.stk0 = stackTop; fr.up = curF; size_t ai = 0; unsigned k = 0;
  for (auto &a : F->args()) { u32 n = flatCount(a.getType()); for (u32 l = 0; l < n && ai < args.size(); l++) fr.s[f->argSlot[k] + l] = args[ai++];
    if (a.hasByValAttr()) { u64 n = DLp->getTypeAllocSize(a.getParamByValType()); u64 p = (stackTop + 32 + 15) & ~15ull; stackTop = (p + n + 47) & ~15ull; markAddr(p, n); u64 src = CI(fr.s[f->argSlot[k]]); copyMem(p, src, n); fr.s[f->argSlot[k]] = VC(p); }
    k++; }
  curF = &fr; ExitKind r; try { r = execBlocks(fr, 0, -1, nullptr); } catch (MergeAbort &) { depth--; curF = fr.up; throw; } curF = fr.up; depth--;
  if (stackTop > fr.stk0) { markUn(fr.stk0, stackTop - fr.stk0 < 64 ? 64 : stackTop - fr.stk0); stackTop = fr.stk0; }
  if (r == X_UNWIND) return UNWIND; ret = std::move(fr.ret); return OK;
}
static St callAddr(u64 a, FunctionType *FT, CallBase *CB, const std::vector<Val> &args, std::vector<Val> &ret) {
  auto it = codeAt.find(a); if (it != codeAt.end()) { Function *F = it->second; if (F->isDeclaration()) return callExternal(F->getName().str(), F, a, FT, CB, args, ret); return callF(F, args, ret); }
  auto h = nativeToHandler.find(a); if (h != nativeToHandler.end()) return callExternal(h->second.first, nullptr, a, FT, CB, args, ret);
  if (a - CODE_BASE < (1ull << 32) || inArena(a) || a < 65536) event("badcall", "call to invalid address in " + whereStr());
  Dl_info di; std::string nm = "<native>"; if (dladdr((void *)a, &di) && di.dli_sname) nm = di.dli_sname; return callExternal(nm, nullptr, a, FT, CB, args, ret);
}
#include "ext.hpp"

int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (2ull << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : rl.rlim_max; if (rl.rlim_cur >= (1ull << 30) && setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("IRSYM_REEXEC")) { setenv("IRSYM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  std::string bc, log = "/dev/stderr"; std::vector<std::string> hs; int jobs = 8; double secs = 120;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); }; if (a == "--log") log = nx(); else if (a == "--out") outdir = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--time") secs = atof(nx().c_str()); else if (a == "--paths") maxPaths = atoll(nx().c_str()); else if (a == "--solver-ms") solverMs = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (bc.empty()) bc = a; else hs.push_back(a); }
  logfd = open(log.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(&SH->tokens, 1, jobs);
  auto MP = [](u64 a, u64 n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (u64)p; };
  MP(ARENA, ARENA_SZ); gran = (u8 *)MP(0, ARENA_SZ / 8); arenaPages = (SPage **)MP(0, ARENA_SZ / 4096 * 8);
  double t0 = now(); deadline = t0 + secs; SMDiagnostic err; auto mod = parseIRFile(bc, err, LC); if (!mod) { err.print("irsym", errs()); return 3; } M = mod.get(); DLp = &M->getDataLayout();
  ZC = new z3::context; pcTr = new Tr(*ZC, true); pcS = new z3::solver(*ZC); { z3::params p(*ZC); p.set("rlimit", 3000000u); pcS->set(p); }
  setupHandlers();
  // addresses
  u64 ca = CODE_BASE; std::string unresolved;
  for (auto &F : *M) { std::string nm = F.getName().str(); if (F.isIntrinsic()) continue; if (F.isDeclaration()) { void *p = dlsym(RTLD_DEFAULT, nm.c_str()); if (p) { gaddr[&F] = (u64)p; if (auto h = findHandler(nm)) nativeToHandler[(u64)p] = {nm, h}; continue; } } gaddr[&F] = ca; codeAt[ca] = &F; ca += 16; }
  for (auto &g : M->globals()) { if (g.isDeclaration()) { void *p = dlsym(RTLD_DEFAULT, g.getName().str().c_str()); if (!p) { if (g.getName() == "__dso_handle") { globTop += 64; gaddr[&g] = globTop; continue; } unresolved += g.getName().str() + " "; continue; } gaddr[&g] = (u64)p; continue; } u64 n = DLp->getTypeAllocSize(g.getValueType()); u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value()); u64 p = (globTop + 32 + al - 1) & ~(al - 1); globTop = (p + n + 15) & ~15ull; gaddr[&g] = p; markAddr(p, n); }
  for (auto &g : M->globals()) if (g.hasInitializer()) { auto *C = g.getInitializer(); u64 base = gaddr[&g]; std::function<void(const Constant *, u64)> wr = [&](const Constant *c, u64 a) { Type *t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; } if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) { u64 off; if (auto *st = dyn_cast<StructType>(t)) off = DLp->getStructLayout(st)->getElementOffset(i); else if (auto *at = dyn_cast<ArrayType>(t)) off = i * DLp->getTypeAllocSize(at->getElementType()); else off = i * (DLp->getTypeSizeInBits(cast<VectorType>(t)->getElementType()) / 8); wr(cast<Constant>(ca->getOperand(i)), a + off); } return; } Val v = constVal1(c); u64 tt[2] = {v.c, v.hi}; memcpy((void *)a, tt, DLp->getTypeStoreSize(t)); }; wr(C, base); }
  { DebugInfoFinder fi; fi.processModule(*M); for (auto *sp : fi.subprograms()) { if (spName.size() >= (1 << 16)) break; if (sp->getFilename().contains("/include/") && !sp->getFilename().contains("c++") && !sp->getFilename().contains("3rd_party") && !sp->getFilename().starts_with("/usr")) { spId[sp] = spName.size(); spName.push_back(sp->getFilename().str() + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str()); } } }
  if (hs.empty()) for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("h_")) hs.push_back(F.getName().str());
  curH = 511; curHName = "<init>";
  int devnull = open("/dev/null", O_WRONLY); int out1 = dup(1); dup2(devnull, 1); 
  // static initialisers
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function *>> fs; for (auto &o : arr->operands()) { auto *cs = cast<ConstantStruct>(o); fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &x : fs) { std::vector<Val> r; if (callF(x.second, {}, r) != OK) { fprintf(stderr, "exception in static init\n"); return 3; } } }
  u64 initI = instrCount; std::map<pid_t, int> run; 
  auto waitOne = [&] { int st; pid_t p = waitpid(-1, &st, 0); auto it = run.find(p); if (it != run.end()) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->h[it->second].crashed++; curHName = hs[it->second]; logline("{\"t\":\"crash\",\"h\":\"" + hs[it->second] + "\",\"status\":" + std::to_string(st) + "}"); } run.erase(it); } };
  for (size_t i = 0; i < hs.size(); i++) {
    Function *F = M->getFunction(hs[i]); if (!F || F->isDeclaration()) { logline("{\"t\":\"engine_error\",\"h\":\"" + hs[i] + "\",\"msg\":\"no such harness\"}"); continue; }
    while (sem_trywait(&SH->tokens) != 0) { if (!run.empty()) { // wait for a token or a child
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 20000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; } if (sem_timedwait(&SH->tokens, &ts) == 0) break; int st; pid_t p; while ((p = waitpid(-1, &st, WNOHANG)) > 0) { auto it = run.find(p); if (it != run.end()) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->h[it->second].crashed++; logline("{\"t\":\"crash\",\"h\":\"" + hs[it->second] + "\",\"status\":" + std::to_string(st) + "}"); } run.erase(it); } } } else sem_wait(&SH->tokens); }
    pid_t p = fork(); if (p == 0) { armAlarm(); curH = i; curHName = hs[i]; holdsToken = true; instrCount = 0; std::vector<Val> r; double th = now(); St st = callF(F, {}, r); SH->instrs += instrCount; if (st == UNWIND) { const std::type_info *ti = (const std::type_info *)pending.tinfo; event("exception", std::string("uncaught exception ") + (ti ? demangle(ti->name()) : "?")); } SH->h[curH].paths++; SH->paths++; witness(); if (verbose) fprintf(stderr, "%s path done %.2fs %lu instrs\n", curHName.c_str(), now() - th, (unsigned long)instrCount); pathEnd(); }
    run[p] = i;
  }
  while (!run.empty()) waitOne();
  dup2(out1, 1);
  std::string s = "{\"t\":\"summary\",\"wall\":" + std::to_string(now() - t0) + ",\"init_instrs\":" + std::to_string(initI);
  auto A = [&](const char *k, u64 v) { s += ",\"" + std::string(k) + "\":" + std::to_string(v); };
  A("instrs", SH->instrs); A("paths", SH->paths); A("forks", SH->forks); A("feas_queries", SH->feasq); A("unsat", SH->unsat); A("sat", SH->sat); A("unknown", SH->unknown); A("asserts", SH->asserts); A("solver_us", SH->solver_us); A("merges", SH->merges); A("merge_aborts", SH->mergeAborts); A("truncated", SH->truncated); A("events", SH->events); A("sym_branches", SH->symbranch); A("inconclusive", SH->inconcl);
  s += ",\"harness\":{"; for (size_t i = 0; i < hs.size(); i++) { auto &h = SH->h[i]; s += (i ? ",\"" : "\"") + hs[i] + "\":{\"paths\":" + std::to_string(h.paths) + ",\"asserts\":" + std::to_string(h.asserts) + ",\"unsat\":" + std::to_string(h.unsat) + ",\"sat\":" + std::to_string(h.sat) + ",\"unknown\":" + std::to_string(h.unknown) + ",\"trunc\":" + std::to_string(h.trunc) + ",\"events\":" + std::to_string(h.events) + ",\"crashed\":" + std::to_string(h.crashed) + "}"; }
  s += "},\"functions\":["; bool first = true; std::set<std::string> uniq; for (size_t i = 0; i < spName.size(); i++) if (SH->subprog[i]) uniq.insert(spName[i]); size_t cnt = 0; for (auto &n : uniq) { if (cnt++ > 400) break; s += (first ? "\"" : ",\"") + jesc(n) + "\""; first = false; } s += "],\"nfunctions\":" + std::to_string(uniq.size()) + "}";
  s += "\n"; (void)!write(logfd, s.data(), s.size()); return 0;
}
