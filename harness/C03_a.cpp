// Value and gradient of the binary element-wise operators (generated by gen_C03.py).
// BOUND: operand shapes from 16 pairs covering equal shapes, missing leading dimensions on either side, size-1 dimensions on either or both sides, and more than 8 rows; arbitrary real operand values inside the operator's domain (x/y and hypot: positive); arbitrary upstream gradient; maximum and minimum: no two compared elements are equal
// ASSUME: floating point arithmetic is interpreted as real arithmetic; std::exp, std::atan2, ... are interpreted by their algebraic identities or as uninterpreted functions shared by both sides
// OUTSIDE: rounding, overflow, NaN; gradients at points where the operator is not differentiable
#include "sym.hpp"
using namespace vh;
inline shp bshape(shp a, shp b) { while (a.size() < b.size()) a.insert(a.begin(), 1); while (b.size() < a.size()) b.insert(b.begin(), 1); for (u64 i = 0; i < a.size(); ++i) if (a[i] == 1) a[i] = b[i]; return a; }
inline u64 bidx(u64 flat, shp const &o, shp const &a) { u64 off = 0, mul = 1; for (u64 k = 0; k < o.size(); ++k) { u64 d = o.size() - 1 - k, c = flat % o[d]; flat /= o[d]; if (k < a.size()) { u64 e = a[a.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } return off; }
template <typename T, typename F, typename R> void val(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) {
  auto a = variable<tensor<T>>{from<T>(qa.s, qa.v)}; auto b = variable<tensor<T>>{from<T>(qb.s, qb.v)}; auto e = f(a, b); auto &s = get_default_session<tensor<T>>();
  shp o = bshape(qa.s, qb.s); std::vector<T> ref; for (u64 i = 0; i < prod(o); ++i) ref.push_back(r(qa.v[bidx(i, o, qa.s)], qb.v[bidx(i, o, qb.s)]));
  sym_assert(same_shape(e.shape(), o), "static shape");
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, o, ref, l); }
  sym_eq(a.data().data(), qa.v.data(), qa.v.size(), "left operand kept"); sym_eq(b.data().data(), qb.v.data(), qb.v.size(), "right operand kept"); }
template <typename T, typename F, typename R> void bin(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) { val<T>(l, f, r, qa, qb); gradcheck<T>(l, f, qa, qb); }
template <typename T, typename F, typename R> void val1(const char *l, F f, R r, gvar<T> const &q) {
  auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = f(a); auto &s = get_default_session<tensor<T>>(); std::vector<T> ref; for (u64 i = 0; i < q.v.size(); ++i) ref.push_back(r(i, q.v[i]));
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, q.s, ref, l); } gradcheck<T>(l, f, q); }
template <typename T, typename F, typename R> void un(const char *l, F f, R r, gvar<T> const &q) { val1<T>(l, f, [&](u64, T x) { return r(x); }, q); }
HARNESS(plus_eq) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({3,4}); bin<T>("plus eq", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_tail) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({4}); bin<T>("plus tail", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_tail2) { typedef double T; auto qa = gv<T>({2,3,2}); auto qb = gv<T>({3,2}); bin<T>("plus tail2", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_swap) { typedef double T; auto qa = gv<T>({4}); auto qb = gv<T>({3,4}); bin<T>("plus swap", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_col) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({3,1}); bin<T>("plus col", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_row) { typedef double T; auto qa = gv<T>({1,4}); auto qb = gv<T>({3,4}); bin<T>("plus row", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_outer) { typedef double T; auto qa = gv<T>({3,1}); auto qb = gv<T>({1,4}); bin<T>("plus outer", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_outer2) { typedef double T; auto qa = gv<T>({2,1,3}); auto qb = gv<T>({4,1}); bin<T>("plus outer2", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_one) { typedef double T; auto qa = gv<T>({1}); auto qb = gv<T>({2,3}); bin<T>("plus one", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_one2) { typedef double T; auto qa = gv<T>({2,3}); auto qb = gv<T>({1,1}); bin<T>("plus one2", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_mid) { typedef double T; auto qa = gv<T>({2,3,2}); auto qb = gv<T>({2,1,2}); bin<T>("plus mid", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_long) { typedef double T; auto qa = gv<T>({11}); auto qb = gv<T>({11}); bin<T>("plus long", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_lead) { typedef double T; auto qa = gv<T>({1,1,3}); auto qb = gv<T>({2,3}); bin<T>("plus lead", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_grow) { typedef double T; auto qa = gv<T>({3,1}); auto qb = gv<T>({4}); bin<T>("plus grow", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_big) { typedef double T; auto qa = gv<T>({9,2}); auto qb = gv<T>({1,2}); bin<T>("plus big", [](auto &a, auto &b) { return a + b; }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_bigcol) { typedef double T; auto qa = gv<T>({9,2}); auto qb = gv<T>({9,1}); bin<T>("plus bigcol", [](auto &a, auto &b) { return plus(a, b); }, [](T x, T y) { return x+y; }, qa, qb); }
HARNESS(plus_const) { typedef double T; auto q = gv<T>({3,4}); auto c = arb<T>({4}); auto k = constant<tensor<T>>{c}; auto v = snap(c); val1<T>("constant", [&](auto &a) { return a + k; }, [&](u64 i, T x) { return x + v[i % 4]; }, q); }
HARNESS(const_prod) { typedef double T; auto q = gv<T>({3,4}); auto c = arb<T>({4}); auto k = constant<tensor<T>>{c}; auto v = snap(c); val1<T>("constant", [&](auto &a) { return elementwise_product(k, a); }, [&](u64 i, T x) { return x * v[i % 4]; }, q); }
