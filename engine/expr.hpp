// Hash-consed term DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <map>
#include <deque>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8; typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
  FADD, FSUB, FMUL, FDIV, FREM, FNEG, FEQ, FLT, FLE, FUNO, FEXT, FTRUNC, SI2F, UI2F, F2SI, F2UI, F2BITS, BITS2F, FN1, FN2, NOPS };
enum Fn : u8 { F_EXP, F_LOG, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_SQRT, F_CBRT,
  F_FLOOR, F_CEIL, F_TRUNC, F_ROUND, F_RINT, F_ERF, F_ERFC, F_EXP2, F_EXPM1, F_LOG2, F_LOG10, F_LOG1P, F_PREC, F_POW, F_ATAN2, F_FMOD, NFN };

struct Node {
  Op op; u8 isF; u8 fn; u8 n; u32 w; u32 id; u64 k, k2; Node *a[3];
};
struct NodeHash { size_t operator()(const Node *x) const {
  u64 h = x->op * 0x9E3779B97F4A7C15ull + x->w * 31 + x->isF * 7 + x->fn * 131; h ^= x->k * 0xC2B2AE3D27D4EB4Full; h ^= x->k2 * 0x165667B19E3779F9ull;
  for (int i = 0; i < x->n; i++) { h = (h << 13) | (h >> 51); h += (u64)x->a[i]->id * 0x9E3779B97F4A7C15ull; } return h; } };
struct NodeEq { bool operator()(const Node *x, const Node *y) const {
  return x->op == y->op && x->w == y->w && x->isF == y->isF && x->fn == y->fn && x->k == y->k && x->k2 == y->k2 && x->n == y->n &&
    (x->n < 1 || x->a[0] == y->a[0]) && (x->n < 2 || x->a[1] == y->a[1]) && (x->n < 3 || x->a[2] == y->a[2]); } };

struct SymVar { std::string key; u8 isF; u32 w; Node *n; };
struct Exprs {
  std::unordered_set<Node *, NodeHash, NodeEq> tab; std::deque<Node> pool; std::vector<SymVar> vars; bool realMode = true;
  Node *intern(Node &t) { auto it = tab.find(&t); if (it != tab.end()) return *it; t.id = pool.size(); pool.push_back(t); Node *p = &pool.back(); tab.insert(p); return p; }
  static u64 mask(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
  Node *bv(u64 v, u32 w, u64 hi = 0) { Node t{}; t.op = CONST; t.w = w; t.k = v & mask(w); t.k2 = w > 64 ? hi & mask(w - 64) : 0; return intern(t); }
  Node *fbits(u64 v, u32 w) { Node t{}; t.op = CONST; t.isF = 1; t.w = w; t.k = v & mask(w); return intern(t); }
  Node *fconst(double d, u32 w) { u64 b = 0; if (w == 32) { float f = (float)d; memcpy(&b, &f, 4); } else memcpy(&b, &d, 8); return fbits(b, w); }
  Node *var(const std::string &key, bool isF, u32 w) { Node t{}; t.op = VAR; t.isF = isF; t.w = w; t.k = vars.size(); Node *n = intern(t); vars.push_back({key, isF, w, n}); return n; }
  static bool isC(Node *n) { return n->op == CONST; }
  static double fval(Node *n) { if (n->w == 32) { float f; u32 b = (u32)n->k; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &n->k, 8); return d; }
  static u128 val(Node *n) { return ((u128)n->k2 << 64) | n->k; }
  static i64 sval(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }
  Node *raw(Op op, u32 w, bool isF, std::initializer_list<Node *> as, u64 k = 0, u8 fn = 0) { Node t{}; t.op = op; t.w = w; t.isF = isF; t.k = k; t.fn = fn; t.n = 0; for (auto x : as) t.a[t.n++] = x; return intern(t); }
  Node *tru() { return bv(1, 1); } Node *fls() { return bv(0, 1); }
  Node *bnot(Node *x) { return bin(XOR, x, bv(~0ull, x->w, ~0ull)); }
  // ---- ite with constant leaves
  static bool constLeaves(Node *n, int lim) { if (lim <= 0) return false; if (isC(n)) return true; if (n->op != ITE) return false; return constLeaves(n->a[1], lim / 2) && constLeaves(n->a[2], lim / 2); }
  static bool foldBV(Op op, u64 a, u64 b, u32 w, u64 &r) {
    u64 m = mask(w);
    switch (op) {
      case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
      case UDIV: if (!b) return false; r = a / b; break; case UREM: if (!b) return false; r = a % b; break;
      case SDIV: { i64 x = sval(a, w), y = sval(b, w); if (!y || (y == -1 && x == INT64_MIN)) return false; r = x / y; break; }
      case SREM: { i64 x = sval(a, w), y = sval(b, w); if (!y) return false; if (y == -1) { r = 0; break; } r = x % y; break; }
      case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
      case SHL: r = b >= w ? 0 : a << b; break; case LSHR: r = b >= w ? 0 : a >> b; break;
      case ASHR: r = (u64)(sval(a, w) >> (b >= w ? w - 1 : b)); if (b >= 64) r = sval(a, w) < 0 ? ~0ull : 0; break;
      default: return false;
    } r &= m; return true;
  }
  static bool foldCmp(Op op, u64 a, u64 b, u32 w) {
    switch (op) { case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b; case SLT: return sval(a, w) < sval(b, w); case SLE: return sval(a, w) <= sval(b, w); default: abort(); } }
  // ---- tables: ite(b == k1, v1, ite(b == k2, v2, ... default)) with constant leaves
  struct Tbl { Node *b = nullptr; std::vector<std::pair<u64, u64>> e; u64 def = 0; };
  static bool table(Node *n, Tbl &t) {
    if (n->op != ITE || n->isF || n->w > 64 || n->w == 1) return false; t.e.clear(); t.b = nullptr;
    while (n->op == ITE) { Node *g = n->a[0]; if (g->op != EQ || g->a[1]->op != CONST || g->a[0]->w > 64 || n->a[1]->op != CONST) return false; if (!t.b) t.b = g->a[0]; else if (t.b != g->a[0]) return false; t.e.push_back({g->a[1]->k, n->a[1]->k}); n = n->a[2]; if (t.e.size() > 1024) return false; }
    if (n->op != CONST) return false; t.def = n->k; return t.e.size() > 6; }
  // a table over every value of a narrow term that is that term shifted by a constant (or with its top bit flipped first)
  Node *closed(const Tbl &t, u32 w, std::function<u64(u64)> f) { u32 bw = t.b->w; if (bw > 12 || bw < 2) return nullptr; u64 n = 1ull << bw, m = mask(w); std::vector<u64> v(n, f(t.def) & m); for (size_t i = t.e.size(); i-- > 0;) v[t.e[i].first] = f(t.e[i].second) & m;
    for (u64 fl : {(u64)0, n / 2}) { u64 c = (v[0] - fl) & m; bool ok = true; for (u64 k = 0; k < n && ok; k++) ok = v[k] == (((k ^ fl) + c) & m); if (ok) { Node *x = fl ? bin(XOR, t.b, bv(fl, bw)) : t.b; x = w > bw ? zext(x, w) : extract(x, 0, w); return bin(ADD, x, bv(c, w)); } }
    return nullptr; }
  Node *closeTable(Node *n) { Tbl t; if (n->op == ITE && table(n, t)) if (Node *c = closed(t, n->w, [](u64 v) { return v; })) return c; return n; }
  // the only variable of a bit-vector term, when it is narrow
  static bool support(Node *n, Node *&v, std::unordered_set<u32> &seen, int &lim) { if (!seen.insert(n->id).second) return true; if (--lim < 0 || n->isF || n->w > 64 || n->op >= FADD) return false; if (n->op == VAR) { if (n->w > 9 || (v && v != n)) return false; v = n; return true; } for (int i = 0; i < n->n; i++) if (!support(n->a[i], v, seen, lim)) return false; return true; }
  static Node *narrow(Node *n) { Node *v = nullptr; std::unordered_set<u32> seen; int lim = 3000; return support(n, v, seen, lim) ? v : nullptr; }
  static bool evalAt(Node *n, u64 v, std::unordered_map<u32, u64> &memo, u64 &r) { if (isC(n)) { r = n->k; return true; } if (n->op == VAR) { r = v; return true; } auto it = memo.find(n->id); if (it != memo.end()) { r = it->second; return true; }
    u64 a[3]; for (int i = 0; i < n->n; i++) if (!evalAt(n->a[i], v, memo, a[i])) return false; u32 w = n->w;
    switch (n->op) { case EQ: case ULT: case ULE: case SLT: case SLE: r = foldCmp(n->op, a[0], a[1], n->a[0]->w); break; case ITE: r = a[0] ? a[1] : a[2]; break; case ZEXT: r = a[0]; break; case SEXT: r = (u64)sval(a[0], n->a[0]->w) & mask(w); break; case EXTRACT: r = (a[0] >> n->k) & mask(w); break; case CONCAT: r = ((a[0] << n->a[1]->w) | a[1]) & mask(w); break; default: if (!foldBV(n->op, a[0], a[1], w, r)) return false; }
    memo[n->id] = r; return true; }
  // one term in v that is ns[i] at v = ks[i]
  Node *general(Node *v, const std::vector<u64> &ks, const std::vector<Node *> &ns, int d = 0) {
    bool same = true; for (auto n : ns) same = same && n == ns[0]; if (same) return ns[0]; Node *f = ns[0]; if (d > 12) return nullptr;
    for (auto n : ns) if (n->op != f->op || n->w != f->w || n->isF != f->isF || n->n != f->n) return nullptr;
    if (f->op == CONST) { if (f->isF || f->w > 64) return nullptr; u32 bw = v->w; u64 m = mask(f->w); for (u64 fl : {(u64)0, (u64)1 << (bw - 1)}) { u64 c = (f->k - (ks[0] ^ fl)) & m; bool ok = true; for (size_t i = 0; i < ns.size() && ok; i++) ok = ns[i]->k == (((ks[i] ^ fl) + c) & m); if (ok) { Node *x = fl ? bin(XOR, v, bv(fl, bw)) : v; x = f->w > bw ? zext(x, f->w) : extract(x, 0, f->w); return bin(ADD, x, bv(c, f->w)); } } return nullptr; }
    if (f->n == 0 || f->isF) return nullptr; for (auto n : ns) if (n->k != f->k || n->fn != f->fn) return nullptr;
    Node *a[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < f->n; i++) { std::vector<Node *> c; for (auto n : ns) c.push_back(n->a[i]); if (!(a[i] = general(v, ks, c, d + 1))) return nullptr; }
    switch (f->op) { case ITE: return ite(a[0], a[1], a[2]); case EQ: case ULT: case ULE: case SLT: case SLE: return cmp(f->op, a[0], a[1]); case ZEXT: return zext(a[0], f->w); case SEXT: return sext(a[0], f->w); case EXTRACT: return extract(a[0], f->k, f->w); case CONCAT: return concat(a[0], a[1]); default: return f->op >= ADD && f->op <= ASHR ? bin(f->op, a[0], a[1]) : nullptr; } }
  // bit slices of a term, least significant first
  struct Sl { Node *n; u32 lo, w; };
  static u32 swidth(const std::vector<Sl> &v) { u32 r = 0; for (auto &x : v) r += x.w; return r; }
  std::vector<Sl> cut(const std::vector<Sl> &v, u32 lo, u32 w) { std::vector<Sl> o; u32 p = 0; for (auto &x : v) { u32 a = std::max(p, lo), b = std::min(p + x.w, lo + w); if (a < b) o.push_back({x.n, x.lo + (a - p), b - a}); p += x.w; } return o; }
  Sl zero(u32 w) { return {bv(0, w), 0, w}; }
  static bool slZero(const Sl &x) { return isC(x.n) && ((x.n->k >> x.lo) & mask(x.w)) == 0; }
  bool slices(Node *x, std::vector<Sl> &o, int d = 0) { // o receives slices of x
    if (x->isF || x->w > 64) { o.push_back({x, 0, x->w}); return false; }
    auto whole = [&] { o.push_back({x, 0, x->w}); return false; }; if (d > 24 || isC(x)) return whole();
    switch (x->op) {
      case ZEXT: if (x->a[0]->w > 64) return whole(); slices(x->a[0], o, d + 1); o.push_back(zero(x->w - x->a[0]->w)); return true;
      case CONCAT: slices(x->a[1], o, d + 1); slices(x->a[0], o, d + 1); return true;
      case EXTRACT: { if (x->a[0]->isF || x->a[0]->w > 64) return whole(); std::vector<Sl> t; slices(x->a[0], t, d + 1); for (auto &q : cut(t, x->k, x->w)) o.push_back(q); return true; }
      case SHL: { if (!isC(x->a[1])) return whole(); u64 k = x->a[1]->k; if (k >= x->w) { o.push_back(zero(x->w)); return true; } std::vector<Sl> t; slices(x->a[0], t, d + 1); o.push_back(zero(k)); for (auto &q : cut(t, 0, x->w - k)) o.push_back(q); return true; }
      case LSHR: { if (!isC(x->a[1])) return whole(); u64 k = x->a[1]->k; if (k >= x->w) { o.push_back(zero(x->w)); return true; } std::vector<Sl> t; slices(x->a[0], t, d + 1); for (auto &q : cut(t, k, x->w - k)) o.push_back(q); o.push_back(zero(k)); return true; }
      case AND: { if (!isC(x->a[1])) return whole(); u64 m = x->a[1]->k; std::vector<Sl> t; slices(x->a[0], t, d + 1); for (u32 p = 0; p < x->w;) { u32 e = p; bool one = (m >> p) & 1; while (e < x->w && ((m >> e) & 1) == one) e++; if (one) for (auto &q : cut(t, p, e - p)) o.push_back(q); else o.push_back(zero(e - p)); p = e; } return true; }
      case OR: { if (x->w == 1) return whole(); std::vector<Sl> a, b, r; slices(x->a[0], a, d + 1); slices(x->a[1], b, d + 1); size_t i = 0, j = 0; u32 ia = 0, jb = 0; while (i < a.size() && j < b.size()) { u32 n = std::min(a[i].w - ia, b[j].w - jb); Sl p{a[i].n, a[i].lo + ia, n}, q{b[j].n, b[j].lo + jb, n}; if (slZero(q)) r.push_back(p); else if (slZero(p)) r.push_back(q); else return whole(); ia += n; jb += n; if (ia == a[i].w) i++, ia = 0; if (jb == b[j].w) j++, jb = 0; } for (auto &q : r) o.push_back(q); return true; }
      default: return whole(); } }
  Node *piece(const Sl &x) { if (isC(x.n)) return bv(x.n->k >> x.lo, x.w); if (x.lo == 0 && x.w == x.n->w) return x.n; return raw(EXTRACT, x.w, false, {x.n}, x.lo); }
  Node *joinSlices(std::vector<Sl> v) { std::vector<Sl> m; for (auto &x : v) { if (x.w == 0) continue; if (!m.empty()) { Sl &l = m.back(); if (isC(l.n) && isC(x.n)) { u64 k = ((l.n->k >> l.lo) & mask(l.w)) | (((x.n->k >> x.lo) & mask(x.w)) << l.w); l = {bv(k, l.w + x.w), 0, l.w + x.w}; continue; } if (l.n == x.n && l.lo + l.w == x.lo) { l.w += x.w; continue; } } m.push_back(x); }
    Node *r = nullptr; for (auto &x : m) { if (isC(x.n) && r && slZero(x)) { r = r->op == ZEXT ? raw(ZEXT, r->w + x.w, false, {r->a[0]}) : raw(ZEXT, r->w + x.w, false, {r}); continue; } Node *p = piece(x); r = r ? raw(CONCAT, r->w + p->w, false, {p, r}) : p; } return r; }
  Node *norm(Node *x) { if (x->isF || x->w > 64 || x->w == 1) return x; if (x->op != OR && x->op != SHL && x->op != LSHR && x->op != AND && x->op != EXTRACT) return x; std::vector<Sl> v; if (!slices(x, v)) return x; if (v.size() > 12) return x; for (auto &s : v) if (s.n->op == ITE) return x; return joinSlices(v); }
  Node *tbuild(const Tbl &t, u32 w, std::function<u64(u64)> f) { if (Node *c = closed(t, w, f)) return c; Node *r = bv(f(t.def), w); for (size_t i = t.e.size(); i-- > 0;) r = ite(cmp(EQ, t.b, bv(t.e[i].first, t.b->w)), bv(f(t.e[i].second), w), r); return r; }
  // guard of the table taking a value for which f holds
  Node *tguard(const Tbl &t, std::function<bool(u64)> f) { std::vector<u64> yes, no; std::unordered_set<u64> seen; for (auto &x : t.e) if (seen.insert(x.first).second) (f(x.second) ? yes : no).push_back(x.first);
    bool d = f(t.def); if (t.b->w <= 12 && seen.size() < (1ull << t.b->w) && (1ull << t.b->w) - seen.size() <= 2) { for (u64 k = 0; k < (1ull << t.b->w); k++) if (!seen.count(k)) (d ? yes : no).push_back(k); if (yes.size() <= no.size()) d = false; else d = true; }
    auto &l = d ? no : yes; Node *r = fls(); for (u64 k : l) r = bin(OR, r, cmp(EQ, t.b, bv(k, t.b->w))); return d ? bnot(r) : r; }
  Node *bin(Op op, Node *a, Node *b) {
    u32 w = a->w;
    if (isC(a) && isC(b) && w <= 64) { u64 r; if (foldBV(op, a->k, b->k, w, r)) return bv(r, w); }
    if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR) && isC(a)) std::swap(a, b);
    if (isC(b) && w <= 64) {
      u64 k = b->k;
      switch (op) {
        case ADD: case SUB: case OR: case SHL: case LSHR: case ASHR: if (k == 0) return a; break;
        case XOR: if (k == 0) return a; if (a->op == XOR && isC(a->a[1])) return bin(XOR, a->a[0], bv(a->a[1]->k ^ k, w)); break;
        case AND: if (k == 0) return b; if (k == mask(w)) return a; break;
        case MUL: if (k == 0) return b; if (k == 1) return a; break;
        case UDIV: case SDIV: if (k == 1) return a; break;
        default: break;
      }
      if (op == OR && k == mask(w)) return b;
      if (op == ADD && a->op == ADD && isC(a->a[1])) return bin(ADD, a->a[0], bv(a->a[1]->k + k, w));
      if (op == SUB) return bin(ADD, a, bv(0 - k, w));
      if (a->op == ITE && constLeaves(a, 64)) return ite(a->a[0], bin(op, a->a[1], b), bin(op, a->a[2], b));
      if (Tbl t; a->op == ITE && op != UDIV && op != SDIV && op != UREM && op != SREM && table(a, t)) return tbuild(t, w, [&](u64 v) { u64 r = 0; foldBV(op, v, k, w, r); return r; });
      if (op == AND && a->op == ZEXT && a->a[0]->w <= 64 && (k & mask(a->a[0]->w)) == mask(a->a[0]->w)) return a;
    }
    if (isC(a) && b->op == ITE && w <= 64 && constLeaves(b, 64)) return ite(b->a[0], bin(op, a, b->a[1]), bin(op, a, b->a[2]));
    if (a == b) { if (op == XOR || op == SUB) return bv(0, w); if (op == AND || op == OR) return a; }
    if (w == 1 && op == ADD) op = XOR;
    if (w == 1 && (op == AND || op == OR || op == XOR) && a->id > b->id && !isC(b)) std::swap(a, b);
    Node *r = raw(op, w, false, {a, b}); return op == OR ? norm(r) : r;
  }
  Node *cmp(Op op, Node *a, Node *b) {
    u32 w = a->w;
    if (isC(a) && isC(b) && w <= 64) return bv(foldCmp(op, a->k, b->k, w), 1);
    if (a == b) return bv(op == EQ || op == ULE || op == SLE, 1);
    if (op == EQ && isC(a)) std::swap(a, b);
    if (w <= 64) {
      if (isC(b)) {
        if (op == EQ && w == 1) return b->k ? a : bnot(a);
        if (op == EQ && a->op == CONCAT && a->w <= 64) return bin(AND, cmp(EQ, a->a[1], bv(b->k, a->a[1]->w)), cmp(EQ, a->a[0], bv(b->k >> a->a[1]->w, a->a[0]->w)));
        if (op == EQ && a->op == XOR && isC(a->a[1])) return cmp(EQ, a->a[0], bv(b->k ^ a->a[1]->k, w));
        if ((op == ULT || op == ULE) && a->op == ZEXT && a->a[0]->w <= 64 && b->k <= mask(a->a[0]->w)) return cmp(op, a->a[0], bv(b->k, a->a[0]->w));
        if (op == EQ && a->op == ZEXT && a->a[0]->w <= 64) { if (b->k & ~mask(a->a[0]->w)) return fls(); return cmp(EQ, a->a[0], bv(b->k, a->a[0]->w)); }
        if ((op == ULT || op == ULE) && a->op == ZEXT && a->a[0]->w <= 64) { if (b->k > mask(a->a[0]->w)) return tru(); }
        if (op == ULT && b->k == 0) return fls();
        if (op == ULE && b->k == mask(w)) return tru();
        if (a->op == ITE && constLeaves(a, 64)) return ite(a->a[0], cmp(op, a->a[1], b), cmp(op, a->a[2], b));
        if (Tbl t; a->op == ITE && table(a, t)) return tguard(t, [&](u64 v) { return foldCmp(op, v, b->k, w); });
        if (op == EQ && a->op == MUL && isC(a->a[1]) && a->a[1]->k && a->a[0]->op == ZEXT && a->a[0]->a[0]->w <= 32 && a->a[1]->k < (1ull << 31) && w == 64) { u64 m = a->a[1]->k; if (b->k % m) return fls(); return cmp(EQ, a->a[0], bv(b->k / m, w)); }
        if (op == EQ && a->op == SHL && isC(a->a[1]) && a->a[0]->op == ZEXT && a->a[1]->k < 64 && a->a[0]->a[0]->w + a->a[1]->k <= w) { u64 m = a->a[1]->k; if (b->k & mask(m)) return fls(); return cmp(EQ, a->a[0], bv(b->k >> m, w)); }
        if (op == EQ && a->op == ADD && isC(a->a[1])) return cmp(EQ, a->a[0], bv(b->k - a->a[1]->k, w));
      } else if (isC(a)) {
        if (b->op == ITE && constLeaves(b, 64)) return ite(b->a[0], cmp(op, a, b->a[1]), cmp(op, a, b->a[2]));
        if (Tbl t; b->op == ITE && table(b, t)) return tguard(t, [&](u64 v) { return foldCmp(op, a->k, v, w); });
        if (op == ULT && a->k == mask(w)) return fls();
        if (op == ULE && a->k == 0) return tru();
        if ((op == ULT || op == ULE) && b->op == ZEXT && b->a[0]->w <= 64) { if (a->k > mask(b->a[0]->w) || (op == ULT && a->k == mask(b->a[0]->w))) return fls(); return cmp(op, bv(a->k, b->a[0]->w), b->a[0]); }
      }
    }
    return raw(op, 1, false, {a, b});
  }
  Node *ite(Node *c, Node *t, Node *f) {
    if (isC(c)) return c->k ? t : f;
    if (t == f) return t;
    if (c->op == XOR && isC(c->a[1])) return ite(c->a[0], f, t);
    if (t->w == 1 && !t->isF) {
      if (isC(t) && isC(f)) return t->k ? c : bnot(c);
      if (isC(t)) return t->k ? bin(OR, c, f) : bin(AND, bnot(c), f);
      if (isC(f)) return f->k ? bin(OR, bnot(c), t) : bin(AND, c, t);
    }
    if (t->op == ITE && t->a[0] == c) t = t->a[1];
    if (f->op == ITE && f->a[0] == c) f = f->a[2];
    if (t == f) return t;
    return raw(ITE, t->w, t->isF, {c, t, f});
  }
  Node *zext(Node *a, u32 w) { if (w == a->w) return a; if (isC(a) && a->w <= 64) return bv(a->k, w); if (a->op == ZEXT) a = a->a[0];
    if (a->op == ITE && constLeaves(a, 64) && w <= 64) return ite(a->a[0], zext(a->a[1], w), zext(a->a[2], w)); if (Tbl t; a->op == ITE && w <= 64 && table(a, t)) return tbuild(t, w, [](u64 v) { return v; }); return raw(ZEXT, w, false, {a}); }
  Node *sext(Node *a, u32 w) { if (w == a->w) return a; if (isC(a) && a->w <= 64) { i64 v = sval(a->k, a->w); return bv((u64)v, w, v < 0 ? ~0ull : 0); } if (a->op == ZEXT) return zext(a->a[0], w);
    if (a->op == ITE && constLeaves(a, 64) && w <= 64) return ite(a->a[0], sext(a->a[1], w), sext(a->a[2], w)); if (Tbl t; a->op == ITE && w <= 64 && table(a, t)) return tbuild(t, w, [&](u64 v) { return (u64)sval(v, a->w); }); return raw(SEXT, w, false, {a}); }
  Node *extract(Node *a, u32 lo, u32 w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) { u128 v = val(a) >> lo; return bv((u64)v, w, (u64)(v >> 64)); }
    if (a->op == EXTRACT) return extract(a->a[0], lo + a->k, w);
    if (a->op == CONCAT) { u32 lw = a->a[1]->w; if (lo + w <= lw) return extract(a->a[1], lo, w); if (lo >= lw) return extract(a->a[0], lo - lw, w); }
    if (a->op == ZEXT || a->op == SEXT) { u32 sw = a->a[0]->w; if (lo + w <= sw) return extract(a->a[0], lo, w); if (a->op == ZEXT && lo >= sw) return bv(0, w); if (lo == 0) return a->op == ZEXT ? zext(a->a[0], w) : sext(a->a[0], w); }
    if (a->op == ITE && constLeaves(a, 64)) return ite(a->a[0], extract(a->a[1], lo, w), extract(a->a[2], lo, w));
    if (Tbl t; a->op == ITE && w <= 64 && table(a, t)) return tbuild(t, w, [&](u64 v) { return v >> lo; });
    if (lo == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR)) return bin(a->op, extract(a->a[0], 0, w), extract(a->a[1], 0, w));
    { Node *r = raw(EXTRACT, w, false, {a}, lo); return a->op == SHL || a->op == LSHR || a->op == AND || a->op == OR || a->op == CONCAT ? norm(r) : r; }
  }
  Node *concat(Node *hi, Node *lo) {
    u32 w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 128) { u128 v = (val(hi) << lo->w) | val(lo); return bv((u64)v, w, (u64)(v >> 64)); }
    if (isC(hi) && hi->k == 0 && hi->k2 == 0) return zext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a[0] == lo->a[0] && hi->k == lo->k + lo->w) return extract(hi->a[0], lo->k, w);
    if (hi->op == EXTRACT && hi->a[0] == lo && hi->k == lo->w) return extract(lo, 0, w);
    return raw(CONCAT, w, false, {hi, lo});
  }
  // ---- floats
  bool isFZ(Node *n) { return isC(n) && fval(n) == 0.0; } bool isFC(Node *n, double d) { return isC(n) && fval(n) == d; }
  Node *fneg(Node *a) { if (isC(a)) return fbits(a->k ^ (1ull << (a->w - 1)), a->w); if (a->op == FNEG) return a->a[0]; return raw(FNEG, a->w, true, {a}); }
  Node *fbin(Op op, Node *a, Node *b) {
    if (isC(a) && isC(b)) {
      if (a->w == 32) { float x = (float)fval(a), y = (float)fval(b), r; switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; default: r = fmodf(x, y); } u32 bb; memcpy(&bb, &r, 4); return fbits(bb, 32); }
      double x = fval(a), y = fval(b), r; switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; default: r = fmod(x, y); } u64 bb; memcpy(&bb, &r, 8); return fbits(bb, 64);
    }
    if (realMode) {
      if (op == FADD) { if (isFZ(a)) return b; if (isFZ(b)) return a; if (a->id > b->id) std::swap(a, b); }
      if (op == FSUB) { if (isFZ(b)) return a; if (isFZ(a)) return fneg(b); if (a == b) return fconst(0, a->w); }
      if (op == FMUL) { if (isFZ(a)) return fconst(0, a->w); if (isFZ(b)) return fconst(0, a->w); if (isFC(a, 1)) return b; if (isFC(b, 1)) return a; if (isFC(a, -1)) return fneg(b); if (isFC(b, -1)) return fneg(a); if (a->id > b->id) std::swap(a, b); }
      if (op == FDIV) { if (isFC(b, 1)) return a; if (isFZ(a) && !isC(b)) return a; }
    }
    return raw(op, a->w, true, {a, b});
  }
  Node *fcmp(Op op, Node *a, Node *b) {
    if (isC(a) && isC(b)) { double x = fval(a), y = fval(b); return bv(op == FEQ ? x == y : op == FLT ? x < y : op == FLE ? x <= y : (x != x || y != y), 1); }
    if (realMode) {
      if (op == FUNO) { if ((isC(a) && std::isnan(fval(a))) || (isC(b) && std::isnan(fval(b)))) return tru(); return fls(); }
      if (a == b) return bv(op == FEQ || op == FLE, 1);
      for (int s = 0; s < 2; s++) { Node *c = s ? b : a; if (isC(c) && std::isinf(fval(c))) { bool pos = fval(c) > 0; if (op == FEQ) return fls(); // other side is finite
          // s==0: c op b ; s==1: a op c
          return bv(s == 0 ? !pos : pos, 1); } if (isC(c) && std::isnan(fval(c))) return fls(); }
    }
    if (op == FEQ && a->id > b->id) std::swap(a, b);
    return raw(op, 1, false, {a, b});
  }
  Node *f2bits(Node *a) { if (!a->isF) return a; if (isC(a)) return bv(a->k, a->w); if (a->op == BITS2F) return a->a[0]; if (a->op == ITE && (isC(a->a[1]) || isC(a->a[2]) || a->a[1]->op == BITS2F)) return ite(a->a[0], f2bits(a->a[1]), f2bits(a->a[2])); return raw(F2BITS, a->w, false, {a}); }
  Node *bits2f(Node *a) { if (a->isF) return a; if (isC(a)) return fbits(a->k, a->w); if (a->op == F2BITS) return a->a[0]; if (a->op == ITE) return ite(a->a[0], bits2f(a->a[1]), bits2f(a->a[2]));
    if (realMode) { // sign-bit manipulation idioms
      if (a->op == AND && a->a[0]->op == F2BITS && isC(a->a[1]) && a->a[1]->k == mask(a->w - 1)) { Node *x = a->a[0]->a[0]; return ite(fcmp(FLT, x, fconst(0, a->w)), fneg(x), x); }
      if (a->op == XOR && a->a[0]->op == F2BITS && isC(a->a[1]) && a->a[1]->k == (1ull << (a->w - 1))) return fneg(a->a[0]->a[0]);
    }
    return raw(BITS2F, a->w, true, {a}); }
  Node *fcast(Node *a, u32 w) { if (a->w == w) return a; if (isC(a)) return fconst(fval(a), w); if (realMode && (a->op == FEXT || a->op == FTRUNC) && a->a[0]->w == w) return a->a[0]; if (a->op == FEXT && w == 32 && a->a[0]->w == 32) return a->a[0]; return raw(w > a->w ? FEXT : FTRUNC, w, true, {a}); }
  Node *fabs_(Node *x) { if (isC(x)) return fbits(x->k & mask(x->w - 1), x->w); return ite(fcmp(FLT, x, fconst(0, x->w)), fneg(x), x); }
  Node *fn1(Fn f, Node *x) { return raw(FN1, x->w, true, {x}, 0, f); }
  Node *fn2(Fn f, Node *x, Node *y) { return raw(FN2, x->w, true, {x, y}, 0, f); }
};
extern Exprs X;
inline std::string show(Node *n, int d = 6) {
  static const char *nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","frem","fneg","feq","flt","fle","funo","fext","ftrunc","si2f","ui2f","f2si","f2ui","f2bits","bits2f","fn1","fn2"};
  if (n->op == CONST) return n->isF ? std::to_string(Exprs::fval(n)) : std::to_string(n->k);
  if (n->op == VAR) return X.vars[n->k].key;
  if (d == 0) return "..";
  std::string s = nm[n->op]; if (n->op == FN1 || n->op == FN2) s += "#" + std::to_string(n->fn); s += "(";
  for (int i = 0; i < n->n; i++) s += (i ? "," : "") + show(n->a[i], d - 1); return s + ")";
}
