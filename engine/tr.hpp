// Translation of terms to z3: real-arithmetic mode (rational functions over atoms) and exact IEEE mode; reverse-mode symbolic differentiation.
#pragma once
#include "expr.hpp"
#include <z3++.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <memory>
#include <optional>
typedef boost::multiprecision::cpp_rational Q;
typedef boost::multiprecision::cpp_int BI;
struct Unsupported { std::string what; };

// ---------- constants: representative rational of a machine float
inline Q exactQ(double d) { int e; double m = frexp(d, &e); i64 mi = (i64)ldexp(m, 53); e -= 53; Q q(mi); BI p = 1; p <<= std::abs(e); return e >= 0 ? q * Q(p) : q / Q(p); }
inline double bitsToD(u64 b, u32 w) { if (w == 32) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
inline Q decQ(const char *s);
inline Q decQ0(const char *s);
inline Q decQ(const char *s) { // mutually inverse constants get mutually inverse rationals
  if (!strncmp(s, "1.44269504088896", 16)) return Q(1) / decQ0("0.693147180559945309417232121458176568"); if (!strncmp(s, "0.43429448190325", 16)) return Q(1) / decQ0("2.30258509299404568401799145468436421"); return decQ0(s); }
inline Q decQ0(const char *s) { // decimal string -> rational
  std::string t(s); bool neg = false; size_t i = 0; if (t[i] == '-') { neg = true; i++; } BI n = 0, d = 1; bool dot = false; int ex = 0;
  for (; i < t.size(); i++) { if (t[i] == '.') dot = true; else if (t[i] == 'e' || t[i] == 'E') { ex = atoi(t.c_str() + i + 1); break; } else if (isdigit(t[i])) { n = n * 10 + (t[i] - '0'); if (dot) d *= 10; } }
  for (; ex > 0; ex--) n *= 10; for (; ex < 0; ex++) d *= 10; Q q(n, d); return neg ? -q : q; }
inline Q snap(u64 bits, u32 w) {
  double d = bitsToD(bits, w); if (d == 0) return 0; if (fabs(d) < 1e15 && d == std::floor(d)) return Q((i64)d);
  auto same = [&](const Q &q) { if (w == 32) return (float)q.convert_to<double>() == (float)d; return q.convert_to<double>() == d; };
  static const char *known[] = {"3.14159265358979323846264338327950288", "6.28318530717958647692528676655900576", "1.57079632679489661923132169163975144", "0.318309886183790671537767526745028724", "0.636619772367581343075535053490057448",
    "1.41421356237309504880168872420969807", "0.707106781186547524400844362104849039", "1.12837916709551257389615890312154517", "0.564189583547756286948079451560772586", "0.398942280401432677939946059934381868", "0.797884560802865355879892119868763737",
    "0.693147180559945309417232121458176568", "1.44269504088896340735992468100189214", "2.30258509299404568401799145468436421", "0.434294481903251827651128918916605082", "2.71828182845904523536028747135266250", "2.50662827463100050241576528481104525", "1.77245385090551602729816748334114518"};
  for (auto s : known) { Q q = decQ(s); double dq = q.convert_to<double>(); double tol = w == 32 ? 1.3e-7 : 3e-16; if (fabs(fabs(d) - dq) <= tol * dq) return d < 0 ? Q(-q) : q; }
  // simplest rational within the rounding interval
  auto simplest = [&](i64 lim) -> std::optional<Q> { double x = fabs(d); i64 p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = x; for (int i = 0; i < 30; i++) { double fl = std::floor(y); if (fl > 1e12) break; i64 a = (i64)fl; i64 p2 = a * p1 + p0, q2 = a * q1 + q0; if (q2 > lim) break; p0 = p1; q0 = q1; p1 = p2; q1 = q2; Q c(p1, q1); if (d < 0) c = -c; if (same(c)) return c; if (y == fl) break; y = 1 / (y - fl); } return std::nullopt; };
  if (auto q = simplest(64)) return *q;
  char buf[64]; for (int p = 1; p <= (w == 32 ? 5 : 12); p++) { snprintf(buf, 64, "%.*g", p, d); Q q = decQ(buf); if (same(q)) return q; }
  if (auto q = simplest(w == 32 ? 1000 : 100000)) return *q;
  return exactQ(d);
}
inline std::string qstr(const Q &q) { BI n = boost::multiprecision::numerator(q), d = boost::multiprecision::denominator(q); return n.str() + "/" + d.str(); }

// ---------- polynomials over atoms (for arguments of exp/sin/...)
typedef std::map<u32, int> Mono; // node id -> exponent
struct Poly { std::map<Mono, Q> t; bool ok = true;
  static Poly c(const Q &q) { Poly p; if (q != 0) p.t[Mono()] = q; return p; }
  static Poly atom(Node *n) { Poly p; p.t[Mono{{n->id, 1}}] = 1; return p; }
  void add(const Poly &o, const Q &k) { for (auto &x : o.t) { auto &r = t[x.first]; r += x.second * k; if (r == 0) t.erase(x.first); } }
  Poly mul(const Poly &o) const { Poly p; for (auto &x : t) for (auto &y : o.t) { Mono m = x.first; for (auto &e : y.first) m[e.first] += e.second; auto &r = p.t[m]; r += x.second * y.second; if (r == 0) p.t.erase(m); } return p; }
};

struct Frac { z3::expr n, d; bool one; };
struct Tr {
  z3::context &c; bool real; std::vector<z3::expr> side; std::unordered_map<u32, Frac> fm; std::unordered_map<u32, z3::expr> bm; std::unordered_map<u32, Poly> pm;
  std::map<std::string, z3::expr> atoms; struct UA { u8 fn; z3::expr n, d, v; bool one; }; std::vector<UA> uas; std::unordered_set<u32> usedVars;
  Tr(z3::context &c, bool real) : c(c), real(real) {}
  z3::expr one() { return c.real_val(1); }
  z3::expr qv(const Q &q) { return c.real_val(qstr(q).c_str()); }
  z3::expr freshR(const std::string &n) { return c.real_const(n.c_str()); }
  static bool isNum(const z3::expr &e, int v) { if (!e.is_numeral()) return false; i64 n; return e.is_numeral_i64(n) && n == v; }
  z3::expr mul(const z3::expr &a, const z3::expr &b) { if (isNum(a, 1)) return b; if (isNum(b, 1)) return a; if (isNum(a, 0)) return a; if (isNum(b, 0)) return b;
    // pull ite(c,x,0)
    for (int s = 0; s < 2; s++) { const z3::expr &i = s ? b : a, &o = s ? a : b; if (i.is_app() && i.decl().decl_kind() == Z3_OP_ITE) { if (isNum(i.arg(2), 0)) return z3::ite(i.arg(0), mul(o, i.arg(1)), c.real_val(0)); if (isNum(i.arg(1), 0)) return z3::ite(i.arg(0), c.real_val(0), mul(o, i.arg(2))); } }
    return a * b; }
  z3::expr add(const z3::expr &a, const z3::expr &b) { if (isNum(a, 0)) return b; if (isNum(b, 0)) return a;
    if (a.is_app() && a.decl().decl_kind() == Z3_OP_ITE && b.is_app() && b.decl().decl_kind() == Z3_OP_ITE && z3::eq(a.arg(0), b.arg(0))) return z3::ite(a.arg(0), add(a.arg(1), b.arg(1)), add(a.arg(2), b.arg(2)));
    return a + b; }
  z3::expr neg(const z3::expr &a) { if (a.is_app() && a.decl().decl_kind() == Z3_OP_ITE) return z3::ite(a.arg(0), neg(a.arg(1)), neg(a.arg(2))); return -a; }
  Frac F(const z3::expr &n) { return Frac{n, one(), true}; }
  Frac fmul(const Frac &a, const Frac &b) { // cancel identical factors
    if (!a.one && z3::eq(a.d, b.n)) return Frac{a.n, b.d, b.one}; if (!b.one && z3::eq(b.d, a.n)) return Frac{b.n, a.d, a.one};
    if (isNum(a.n, 0) || isNum(b.n, 0)) return F(c.real_val(0));
    return Frac{mul(a.n, b.n), a.one ? b.d : b.one ? a.d : mul(a.d, b.d), a.one && b.one}; }
  Frac inv(const Frac &a) { return Frac{a.d, a.n, isNum(a.n, 1)}; }
  Frac fadd(const Frac &a, const Frac &b) { if (isNum(a.n, 0)) return b; if (isNum(b.n, 0)) return a; if (a.one && b.one) return F(add(a.n, b.n)); if (!a.one && !b.one && z3::eq(a.d, b.d)) return Frac{add(a.n, b.n), a.d, false};
    if (a.one) return Frac{add(mul(a.n, b.d), b.n), b.d, false}; if (b.one) return Frac{add(a.n, mul(b.n, a.d)), a.d, false};
    // d1 = k*d2 detection through simplification of products
    if (divides(a.d, b.d)) { z3::expr k = quot(b.d, a.d); return Frac{add(mul(a.n, k), b.n), b.d, false}; }
    if (divides(b.d, a.d)) { z3::expr k = quot(a.d, b.d); return Frac{add(a.n, mul(b.n, k)), a.d, false}; }
    return Frac{add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d), false}; }
  void factors(const z3::expr &e, std::vector<z3::expr> &o) { if (e.is_app() && e.decl().decl_kind() == Z3_OP_MUL) { for (unsigned i = 0; i < e.num_args(); i++) factors(e.arg(i), o); } else o.push_back(e); }
  bool divides(const z3::expr &a, const z3::expr &b) { std::vector<z3::expr> fa, fb; factors(a, fa); factors(b, fb); if (fa.size() > fb.size()) return false; std::vector<bool> u(fb.size()); for (auto &x : fa) { bool f = false; for (size_t i = 0; i < fb.size(); i++) if (!u[i] && z3::eq(x, fb[i])) { u[i] = true; f = true; break; } if (!f) return false; } return true; }
  z3::expr quot(const z3::expr &b, const z3::expr &a) { std::vector<z3::expr> fa, fb; factors(a, fa); factors(b, fb); std::vector<bool> u(fb.size()); for (auto &x : fa) for (size_t i = 0; i < fb.size(); i++) if (!u[i] && z3::eq(x, fb[i])) { u[i] = true; break; } z3::expr r = one(); for (size_t i = 0; i < fb.size(); i++) if (!u[i]) r = mul(r, fb[i]); return r; }
  Frac fpow(const Frac &a, int p) { if (p < 0) return inv(fpow(a, -p)); Frac r = F(one()); for (int i = 0; i < p; i++) r = fmul(r, a); return r; }
  z3::expr asReal(const Frac &f) { return f.one ? f.n : f.n / f.d; }
  void nz(const Frac &f) { if (!f.one) side.push_back(f.d != 0); }
  z3::expr atom(const std::string &key, const char *pfx, bool &fresh) { auto it = atoms.find(key); if (it != atoms.end()) { fresh = false; return it->second; } fresh = true; z3::expr v = freshR(std::string(pfx) + std::to_string(atoms.size())); atoms.emplace(key, v); return v; }
  const Poly &poly(Node *n) {
    auto it = pm.find(n->id); if (it != pm.end()) return it->second; Poly p;
    switch (n->op) {
      case CONST: if (std::isfinite(Exprs::fval(n))) p = Poly::c(snap(n->k, n->w)); else p = Poly::atom(n); break;
      case FADD: p = poly(n->a[0]); p.add(poly(n->a[1]), 1); break;
      case FSUB: p = poly(n->a[0]); p.add(poly(n->a[1]), -1); break;
      case FNEG: p.add(poly(n->a[0]), -1); break;
      case FEXT: case FTRUNC: p = poly(n->a[0]); break;
      case FMUL: { const Poly &a = poly(n->a[0]); const Poly &b = poly(n->a[1]); if (a.t.size() * b.t.size() <= 64) p = a.mul(b); else p = Poly::atom(n); break; }
      case FDIV: { Poly b = poly(n->a[1]); if (b.t.size() == 1 && b.t.begin()->first.empty()) p.add(poly(n->a[0]), 1 / b.t.begin()->second); else p = Poly::atom(n); break; }
      default: p = Poly::atom(n);
    }
    if (p.t.size() > 64) p = Poly::atom(n);
    return pm.emplace(n->id, p).first->second;
  }
  Frac expOf(const Poly &p) {
    Frac r = F(one());
    for (auto &m : p.t) {
      Q k = m.second;
      if (m.first.empty()) { double v = std::exp(k.convert_to<double>()); r = fmul(r, F(qv(exactQ(v)))); continue; }
      BI nu = boost::multiprecision::numerator(k), de = boost::multiprecision::denominator(k);
      Node *sole = m.first.size() == 1 && m.first.begin()->second == 1 ? &X.pool[m.first.begin()->first] : nullptr;
      i64 e = 1; Q unit = k;
      if (boost::multiprecision::abs(nu) <= 12) { e = nu.convert_to<i64>(); unit = Q(1, de); } else if (k < 0) { e = -1; unit = -k; }
      if (sole && sole->op == FN1 && sole->fn == F_LOG && unit == 1) { r = fmul(r, fpow(frac(sole->a[0]), (int)e)); continue; }
      std::string key = "exp:" + qstr(unit); for (auto &x : m.first) key += "," + std::to_string(x.first) + "^" + std::to_string(x.second);
      bool fresh; z3::expr v = atom(key, "E!", fresh); if (fresh) { side.push_back(v > 0); if (sole && sole->op == ITE && unit == 1) { Frac ea = expOf(poly(sole->a[1])), eb = expOf(poly(sole->a[2])); if (ea.one && eb.one) side.push_back(v == z3::ite(B(sole->a[0]), ea.n, eb.n)); } }
      r = fmul(r, fpow(F(v), (int)e));
    }
    return r;
  }
  Frac ufn(u8 fn, const Frac &arg, const char *pfx, const std::function<void(const z3::expr &)> &ax) {
    z3::expr n = arg.n.simplify(), d = arg.d.simplify();
    for (auto &u : uas) if (u.fn == fn && z3::eq(u.n, n) && z3::eq(u.d, d)) return F(u.v);
    z3::expr v = freshR(std::string(pfx) + std::to_string(uas.size()));
    int same = 0; for (auto &u : uas) if (u.fn == fn && same++ < 6) side.push_back(z3::implies(mul(u.n, d) == mul(n, u.d), u.v == v));
    uas.push_back(UA{fn, n, d, v, arg.one}); if (ax) ax(v); return F(v);
  }
  struct UB { u8 fn; z3::expr a, b, p, q, v; }; std::vector<UB> ubs;
  Frac ufn2(u8 fn, const Frac &x, const Frac &y) {
    z3::expr a = x.n.simplify(), b = x.d.simplify(), p = y.n.simplify(), q = y.d.simplify();
    for (auto &u : ubs) if (u.fn == fn && z3::eq(u.a, a) && z3::eq(u.b, b) && z3::eq(u.p, p) && z3::eq(u.q, q)) return F(u.v);
    z3::expr v = freshR("UF2!" + std::to_string(ubs.size()));
    int same = 0; for (auto &u : ubs) if (u.fn == fn && same++ < 4) side.push_back(z3::implies(mul(u.a, b) == mul(a, u.b) && mul(u.p, q) == mul(p, u.q), u.v == v));
    ubs.push_back(UB{fn, a, b, p, q, v}); return F(v);
  }
  Frac fn1(Node *n) {
    Node *x = n->a[0]; u32 w = n->w;
    switch (n->fn) {
      case F_EXP: return expOf(poly(x));
      case F_EXP2: { Poly p; p.add(poly(x), decQ("0.693147180559945309417232121458176568")); return expOf(p); }
      case F_EXPM1: return fadd(expOf(poly(x)), F(c.real_val(-1)));
      case F_SINH: case F_COSH: case F_TANH: { Frac e = expOf(poly(x)); Poly np; np.add(poly(x), -1); Frac ei = expOf(np); Frac s = fadd(e, Frac{neg(ei.n), ei.d, ei.one}), k = fadd(e, ei); Frac h = F(c.real_val("1/2")); if (n->fn == F_SINH) return fmul(h, s); if (n->fn == F_COSH) return fmul(h, k);
        // (e^2-1)/(e^2+1)
        Poly p2; p2.add(poly(x), 2); Frac e2 = expOf(p2); return fmul(fadd(e2, F(c.real_val(-1))), inv(fadd(e2, F(c.real_val(1))))); }
      case F_LOG: { Frac a = frac(x); nz(a); Poly p = poly(x); if (p.t.size() == 1 && x->op == FN1 && x->fn == F_EXP) return frac(x->a[0]); return ufn(F_LOG, a, "LOG!", nullptr); }
      case F_LOG1P: { Frac a = fadd(frac(x), F(c.real_val(1))); return ufn(F_LOG, a, "LOG!", nullptr); }
      case F_LOG2: { Frac a = ufn(F_LOG, frac(x), "LOG!", nullptr); return fmul(a, F(qv(decQ("1.44269504088896340735992468100189214")))); }
      case F_LOG10: { Frac a = ufn(F_LOG, frac(x), "LOG!", nullptr); return fmul(a, F(qv(decQ("0.434294481903251827651128918916605082")))); }
      case F_SQRT: { Frac a = frac(x); nz(a); return ufn(F_SQRT, a, "SQRT!", [&](const z3::expr &v) { side.push_back(v >= 0); side.push_back(mul(mul(v, v), a.d) == a.n); }); }
      case F_CBRT: { Frac a = frac(x); return ufn(F_CBRT, a, "CBRT!", [&](const z3::expr &v) { side.push_back(mul(mul(mul(v, v), v), a.d) == a.n); }); }
      case F_SIN: case F_COS: case F_TAN: {
        Poly p = poly(x); bool flip = false; if (!p.t.empty() && p.t.rbegin()->second < 0) { flip = true; Poly q; q.add(p, -1); p = q; }
        std::string key; for (auto &m : p.t) { key += qstr(m.second) + ":"; for (auto &e : m.first) key += std::to_string(e.first) + "^" + std::to_string(e.second) + ","; }
        bool fs, fc; z3::expr s = atom("sin:" + key, "SIN!", fs), k = atom("cos:" + key, "COS!", fc); if (fs || fc) side.push_back(s * s + k * k == 1);
        Frac S = F(flip ? -s : s), K = F(k); if (n->fn == F_SIN) return S; if (n->fn == F_COS) return K; side.push_back(k != 0); return fmul(S, inv(K)); }
      case F_FLOOR: case F_CEIL: case F_TRUNC: case F_ROUND: case F_RINT: {
        z3::expr r = asReal(frac(x)); z3::func_decl toInt(c, Z3_mk_func_decl(c, Z3_mk_string_symbol(c, "dummy"), 0, nullptr, c.int_sort()));
        auto fl = [&](const z3::expr &e) { return z3::to_real(z3::expr(c, Z3_mk_real2int(c, e))); };
        if (n->fn == F_FLOOR) return F(fl(r)); if (n->fn == F_CEIL) return F(-fl(-r)); if (n->fn == F_TRUNC) return F(z3::ite(r >= 0, fl(r), -fl(-r)));
        if (n->fn == F_ROUND) return F(z3::ite(r >= 0, fl(r + c.real_val("1/2")), -fl(-r + c.real_val("1/2")))); z3::expr fr = fl(r + c.real_val("1/2")), hf = fl(fr / 2) * 2; return F(z3::ite(fr - r == c.real_val("1/2") && hf != fr, fr - 1, fr)); }
      case F_PREC: return ufn(F_PREC, frac(x), "PREC!", nullptr);
      default: return ufn(n->fn, frac(x), "UF!", nullptr);
    }
  }
  Frac frac(Node *n) {
    auto it = fm.find(n->id); if (it != fm.end()) return it->second; Frac r = F(c.real_val(0));
    switch (n->op) {
      case CONST: { double d = Exprs::fval(n); if (std::isnan(d)) { r = F(freshR("NAN!" + std::to_string(n->id))); } else if (std::isinf(d)) { z3::expr v = freshR(d > 0 ? "PINF!" : "NINF!"); side.push_back(d > 0 ? v > c.real_val("1000000000000000000000000000000000000000") : v < c.real_val("-1000000000000000000000000000000000000000")); r = F(v); } else if (fabs(d) > 1e30) r = F(qv(exactQ(d))); else r = F(qv(snap(n->k, n->w))); break; }
      case VAR: usedVars.insert(n->k); r = F(c.real_const(X.vars[n->k].key.c_str())); break;
      case FADD: r = fadd(frac(n->a[0]), frac(n->a[1])); break;
      case FSUB: { Frac b = frac(n->a[1]); r = fadd(frac(n->a[0]), Frac{neg(b.n), b.d, b.one}); break; }
      case FNEG: { Frac b = frac(n->a[0]); r = Frac{neg(b.n), b.d, b.one}; break; }
      case FMUL: r = fmul(frac(n->a[0]), frac(n->a[1])); break;
      case FDIV: { Frac a = frac(n->a[0]), b = frac(n->a[1]); if (!b.n.is_numeral()) side.push_back(b.n != 0); else if (isNum(b.n, 0)) { r = F(freshR("DIV0!" + std::to_string(n->id))); break; }
        if (b.one && b.n.is_numeral() ) { r = fmul(a, F((one() / b.n).simplify())); } else r = fmul(a, inv(b)); break; }
      case FEXT: case FTRUNC: r = frac(n->a[0]); break;
      case ITE: { z3::expr cnd = B(n->a[0]); Frac a = frac(n->a[1]), b = frac(n->a[2]); if (a.one && b.one) r = F(z3::ite(cnd, a.n, b.n)); else if (z3::eq(a.d, b.d)) r = Frac{z3::ite(cnd, a.n, b.n), a.d, false}; else r = Frac{z3::ite(cnd, a.n, b.n), z3::ite(cnd, a.d, b.d), false}; break; }
      case SI2F: r = F(z3::to_real(z3::expr(c, Z3_mk_bv2int(c, V(n->a[0]), true)))); break;
      case UI2F: r = F(z3::to_real(z3::expr(c, Z3_mk_bv2int(c, V(n->a[0]), false)))); break;
      case FN1: r = fn1(n); break;
      case FN2: if (n->fn == F_POW) { Node *y = n->a[1]; Poly py = poly(y); if (py.t.empty()) { r = F(one()); break; } if (py.t.size() == 1 && py.t.begin()->first.empty()) { Q k = py.t.begin()->second; BI d = boost::multiprecision::denominator(k), nn = boost::multiprecision::numerator(k);
            if (d == 1 && boost::multiprecision::abs(nn) <= 16) { r = fpow(frac(n->a[0]), nn.convert_to<int>()); break; }
            if (d == 2 && boost::multiprecision::abs(nn) <= 15) { Node *s = X.fn1(F_SQRT, n->a[0]); r = fpow(frac(s), nn.convert_to<int>()); break; } }
          Node *l = X.fn1(F_LOG, n->a[0]); Node *p = X.raw(FMUL, n->w, true, {y, l}); r = expOf(poly(p)); break; }
        if (n->fn == F_ATAN2) { r = ufn2(n->fn, frac(n->a[0]), frac(n->a[1])); break; }
        throw Unsupported{"fn2 " + std::to_string(n->fn)};
      case BITS2F: throw Unsupported{"float from bits: " + show(n, 3)};
      default: throw Unsupported{"real op " + show(n, 2)};
    }
    return fm.emplace(n->id, r).first->second;
  }
  // ---- IEEE mode
  z3::sort fs(u32 w) { return w == 32 ? c.fpa_sort(8, 24) : c.fpa_sort(11, 53); }
  std::unordered_map<u32, z3::expr> xm;
  z3::expr fpx(Node *n) {
    auto it = xm.find(n->id); if (it != xm.end()) return it->second; z3::expr rm(c, Z3_mk_fpa_rne(c)); z3::expr r = c.bool_val(true);
    switch (n->op) {
      case CONST: r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, c.bv_val((uint64_t)n->k, n->w), fs(n->w))); break;
      case VAR: usedVars.insert(n->k); r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, c.bv_const(X.vars[n->k].key.c_str(), n->w), fs(n->w))); break;
      case FADD: r = z3::expr(c, Z3_mk_fpa_add(c, rm, fpx(n->a[0]), fpx(n->a[1]))); break;
      case FSUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rm, fpx(n->a[0]), fpx(n->a[1]))); break;
      case FMUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rm, fpx(n->a[0]), fpx(n->a[1]))); break;
      case FDIV: r = z3::expr(c, Z3_mk_fpa_div(c, rm, fpx(n->a[0]), fpx(n->a[1]))); break;
      case FNEG: r = z3::expr(c, Z3_mk_fpa_neg(c, fpx(n->a[0]))); break;
      case FEXT: case FTRUNC: r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm, fpx(n->a[0]), fs(n->w))); break;
      case ITE: r = z3::ite(B(n->a[0]), fpx(n->a[1]), fpx(n->a[2])); break;
      case SI2F: r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm, V(n->a[0]), fs(n->w))); break;
      case UI2F: r = z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm, V(n->a[0]), fs(n->w))); break;
      case BITS2F: r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, V(n->a[0]), fs(n->w))); break;
      case FN1: { z3::expr m = rm; if (n->fn == F_SQRT) { r = z3::expr(c, Z3_mk_fpa_sqrt(c, rm, fpx(n->a[0]))); break; } Z3_ast rr = n->fn == F_FLOOR ? Z3_mk_fpa_rtn(c) : n->fn == F_CEIL ? Z3_mk_fpa_rtp(c) : n->fn == F_TRUNC ? Z3_mk_fpa_rtz(c) : n->fn == F_ROUND ? Z3_mk_fpa_rna(c) : n->fn == F_RINT ? Z3_mk_fpa_rne(c) : nullptr; if (rr) { r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, rr, fpx(n->a[0]))); break; }
        z3::sort s = fs(n->w); z3::func_decl f = c.function(("fn" + std::to_string(n->fn) + "_" + std::to_string(n->w)).c_str(), s, s); r = f(fpx(n->a[0])); break; }
      default: throw Unsupported{"fp op " + show(n, 2)};
    }
    return xm.emplace(n->id, r).first->second;
  }
  // ---- bit-vectors / booleans
  z3::expr V(Node *n) { z3::expr e = G(n); if (n->w == 1) return z3::ite(e, c.bv_val(1, 1), c.bv_val(0, 1)); return e; }
  z3::expr B(Node *n) { return G(n); } // w==1
  z3::expr fc(Op op, Node *a, Node *b) {
    if (!real) { z3::expr x = fpx(a), y = fpx(b); switch (op) { case FEQ: return z3::expr(c, Z3_mk_fpa_eq(c, x, y)); case FLT: return z3::expr(c, Z3_mk_fpa_lt(c, x, y)); case FLE: return z3::expr(c, Z3_mk_fpa_leq(c, x, y)); default: return z3::expr(c, Z3_mk_fpa_is_nan(c, x)) || z3::expr(c, Z3_mk_fpa_is_nan(c, y)); } }
    if (op == FUNO) return c.bool_val(false);
    Frac A = frac(a), Bf = frac(b); z3::expr x = asReal(A), y = asReal(Bf); nz(A); nz(Bf);
    return op == FEQ ? x == y : op == FLT ? x < y : x <= y;
  }
  z3::expr G(Node *n) {
    auto it = bm.find(n->id); if (it != bm.end()) return it->second; z3::expr r = c.bool_val(true); u32 w = n->w;
    switch (n->op) {
      case CONST: if (w == 1) r = c.bool_val(n->k != 0); else if (w <= 64) r = c.bv_val((uint64_t)n->k, w); else r = z3::concat(c.bv_val((uint64_t)n->k2, w - 64), c.bv_val((uint64_t)n->k, 64)); break;
      case VAR: usedVars.insert(n->k); r = w == 1 ? c.bool_const(X.vars[n->k].key.c_str()) : c.bv_const(X.vars[n->k].key.c_str(), w); break;
      case AND: r = w == 1 ? B(n->a[0]) && B(n->a[1]) : (V(n->a[0]) & V(n->a[1])); break;
      case OR: r = w == 1 ? B(n->a[0]) || B(n->a[1]) : (V(n->a[0]) | V(n->a[1])); break;
      case XOR: if (w == 1) { r = (Exprs::isC(n->a[1]) && n->a[1]->k) ? !B(n->a[0]) : (B(n->a[0]) != B(n->a[1])); } else r = V(n->a[0]) ^ V(n->a[1]); break;
      case ITE: if (n->isF) throw Unsupported{"G on float ite"}; r = z3::ite(B(n->a[0]), G(n->a[1]), G(n->a[2])); break;
      case EQ: {
        Node *a = n->a[0], *b = n->a[1];
        if (real && (a->op == F2BITS || b->op == F2BITS)) { Node *fa = X.bits2f(a), *fb = X.bits2f(b); r = fc(FEQ, fa, fb); break; }
        r = a->w == 1 ? B(a) == B(b) : V(a) == V(b); break; }
      case ULT: r = z3::ult(V(n->a[0]), V(n->a[1])); break; case ULE: r = z3::ule(V(n->a[0]), V(n->a[1])); break;
      case SLT: { Node *a = n->a[0]; if (real && a->op == F2BITS && Exprs::isC(n->a[1]) && n->a[1]->k == 0) { r = fc(FLT, a->a[0], X.fconst(0, a->w)); break; } r = z3::slt(V(a), V(n->a[1])); break; }
      case SLE: r = z3::sle(V(n->a[0]), V(n->a[1])); break;
      case FEQ: case FLT: case FLE: case FUNO: r = fc(n->op, n->a[0], n->a[1]); break;
      case F2BITS: if (real) throw Unsupported{"bits of float in real mode: " + show(n, 3)}; r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, fpx(n->a[0]))); break;
      case F2SI: case F2UI: if (real) { z3::expr x = asReal(frac(n->a[0])); z3::expr i = z3::ite(x >= 0, z3::expr(c, Z3_mk_real2int(c, x)), -z3::expr(c, Z3_mk_real2int(c, -x))); r = z3::expr(c, Z3_mk_int2bv(c, w, i)); }
        else { z3::expr rz(c, Z3_mk_fpa_rtz(c)); r = n->op == F2SI ? z3::expr(c, Z3_mk_fpa_to_sbv(c, rz, fpx(n->a[0]), w)) : z3::expr(c, Z3_mk_fpa_to_ubv(c, rz, fpx(n->a[0]), w)); } if (w == 1) r = r == c.bv_val(1, 1); break;
      default: {
        z3::expr a = V(n->a[0]);
        switch (n->op) {
          case ADD: r = a + V(n->a[1]); break; case SUB: r = a - V(n->a[1]); break; case MUL: r = a * V(n->a[1]); break; case UDIV: r = z3::udiv(a, V(n->a[1])); break; case SDIV: r = a / V(n->a[1]); break;
          case UREM: r = z3::urem(a, V(n->a[1])); break; case SREM: r = z3::srem(a, V(n->a[1])); break; case SHL: r = z3::shl(a, V(n->a[1])); break; case LSHR: r = z3::lshr(a, V(n->a[1])); break; case ASHR: r = z3::ashr(a, V(n->a[1])); break;
          case CONCAT: r = z3::concat(a, V(n->a[1])); break; case EXTRACT: r = a.extract(n->k + w - 1, n->k); break; case ZEXT: r = z3::zext(a, w - n->a[0]->w); break; case SEXT: r = z3::sext(a, w - n->a[0]->w); break;
          default: throw Unsupported{"op " + show(n, 2)};
        }
        if (w == 1) r = r == c.bv_val(1, 1);
      }
    }
    return bm.emplace(n->id, r).first->second;
  }
  // a == b as values
  z3::expr eqv(Node *a, Node *b) {
    if (a->isF && real) { Frac x = frac(a), y = frac(b); nz(x); nz(y); z3::expr l = mul(x.n, y.d), r = mul(y.n, x.d); if (x.one && y.one) { l = x.n; r = y.n; } else if (z3::eq(x.d, y.d)) { l = x.n; r = y.n; } return l == r; }
    if (a->isF) { z3::expr x = fpx(a), y = fpx(b); return x == y; } // SMT-LIB equality: same value (NaN=NaN, -0 != 0)
    return a->w == 1 ? B(a) == B(b) : V(a) == V(b);
  }
};

// ---------- reverse-mode differentiation of the DAG
struct Diff {
  std::map<u32, Node *, std::greater<u32>> adj; std::unordered_map<u32, Node *> done;
  void acc(Node *x, Node *v) { if (!x->isF || x->op == CONST) return; auto &s = adj[x->id]; s = s ? X.fbin(FADD, s, v) : v; }
  void run() {
    while (!adj.empty()) {
      auto it = adj.begin(); u32 id = it->first; Node *g = it->second; adj.erase(it); Node *n = &X.pool[id]; done[id] = g; u32 w = n->w;
      Node *a = n->n > 0 ? n->a[0] : nullptr, *b = n->n > 1 ? n->a[1] : nullptr; auto K = [&](double d) { return X.fconst(d, w); }; auto M = [&](Node *x, Node *y) { return X.fbin(FMUL, x, y); }; auto D = [&](Node *x, Node *y) { return X.fbin(FDIV, x, y); }; auto A = [&](Node *x, Node *y) { return X.fbin(FADD, x, y); }; auto S = [&](Node *x, Node *y) { return X.fbin(FSUB, x, y); };
      if (X.isFZ(g)) continue;
      switch (n->op) {
        case VAR: case SI2F: case UI2F: break;
        case FADD: acc(a, g); acc(b, g); break; case FSUB: acc(a, g); acc(b, X.fneg(g)); break; case FNEG: acc(a, X.fneg(g)); break;
        case FMUL: acc(a, M(g, b)); acc(b, M(g, a)); break;
        case FDIV: acc(a, D(g, b)); acc(b, X.fneg(D(M(g, a), M(b, b)))); break;
        case FEXT: case FTRUNC: acc(a, X.fcast(g, a->w)); break;
        case ITE: acc(n->a[1], X.ite(a, g, K(0))); acc(n->a[2], X.ite(a, K(0), g)); break;
        case FREM: acc(a, g); break;
        case FN1: { Node *o = K(1), *d = nullptr; switch (n->fn) {
            case F_EXP: d = n; break; case F_EXP2: d = M(n, K(0.6931471805599453)); break; case F_EXPM1: d = A(n, o); break; case F_LOG: d = D(o, a); break; case F_LOG2: d = D(K(1.4426950408889634), a); break; case F_LOG10: d = D(K(0.4342944819032518), a); break; case F_LOG1P: d = D(o, A(o, a)); break;
            case F_SIN: d = X.fn1(F_COS, a); break; case F_COS: d = X.fneg(X.fn1(F_SIN, a)); break; case F_TAN: d = A(o, M(n, n)); break;
            case F_ASIN: d = D(o, X.fn1(F_SQRT, S(o, M(a, a)))); break; case F_ACOS: d = X.fneg(D(o, X.fn1(F_SQRT, S(o, M(a, a))))); break; case F_ATAN: d = D(o, A(o, M(a, a))); break;
            case F_SINH: d = X.fn1(F_COSH, a); break; case F_COSH: d = X.fn1(F_SINH, a); break; case F_TANH: d = S(o, M(n, n)); break;
            case F_ASINH: d = D(o, X.fn1(F_SQRT, A(M(a, a), o))); break; case F_ACOSH: d = D(o, X.fn1(F_SQRT, S(M(a, a), o))); break; case F_ATANH: d = D(o, S(o, M(a, a))); break;
            case F_SQRT: d = D(K(0.5), n); break; case F_CBRT: d = D(o, M(K(3), M(n, n))); break;
            case F_FLOOR: case F_CEIL: case F_TRUNC: case F_ROUND: case F_RINT: d = K(0); break;
            case F_ERF: d = M(K(1.1283791670955126), X.fn1(F_EXP, X.fneg(M(a, a)))); break; case F_ERFC: d = X.fneg(M(K(1.1283791670955126), X.fn1(F_EXP, X.fneg(M(a, a))))); break;
            default: throw Unsupported{"derivative of fn"}; }
          acc(a, M(g, d)); break; }
        case FN2: if (n->fn == F_POW) { acc(a, M(g, M(b, X.fn2(F_POW, a, S(b, K(1)))))); if (b->op != CONST) acc(b, M(g, M(n, X.fn1(F_LOG, a)))); }
          else if (n->fn == F_ATAN2) { Node *r = A(M(a, a), M(b, b)); acc(a, D(M(g, b), r)); acc(b, X.fneg(D(M(g, a), r))); } else throw Unsupported{"derivative of fn2"}; break;
        default: throw Unsupported{"derivative through " + show(n, 2)};
      }
    }
  }
};
