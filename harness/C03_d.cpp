#include "sym.hpp"
using namespace vh;
inline shp bshape(shp a, shp b) { while (a.size() < b.size()) a.insert(a.begin(), 1); while (b.size() < a.size()) b.insert(b.begin(), 1); for (u64 i = 0; i < a.size(); ++i) if (a[i] == 1) a[i] = b[i]; return a; }
inline u64 bidx(u64 flat, shp const &o, shp const &a) { u64 off = 0, mul = 1; for (u64 k = 0; k < o.size(); ++k) { u64 d = o.size() - 1 - k, c = flat % o[d]; flat /= o[d]; if (k < a.size()) { u64 e = a[a.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } return off; }
template <typename T, typename F, typename R> void val(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) {
  auto a = variable<tensor<T>>{from<T>(qa.s, qa.v)}; auto b = variable<tensor<T>>{from<T>(qb.s, qb.v)}; auto e = f(a, b); auto &s = get_default_session<tensor<T>>();
  shp o = bshape(qa.s, qb.s); std::vector<T> ref; for (u64 i = 0; i < prod(o); ++i) ref.push_back(r(qa.v[bidx(i, o, qa.s)], qb.v[bidx(i, o, qb.s)]));
  sym_assert(same_shape(e.shape(), o), "static shape");
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, o, ref, l); }
  sym_eq(a.data().data(), qa.v.data(), qa.v.size(), "left operand kept"); sym_eq(b.data().data(), qb.v.data(), qb.v.size(), "right operand kept"); }
template <typename T, typename F, typename R> void bin(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) { val<T>(l, f, r, qa, qb); gradcheck<T>(l, f, qa, qb); }
template <typename T, typename F, typename R> void val1(const char *l, F f, R r, gvar<T> const &q) {
  auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = f(a); auto &s = get_default_session<tensor<T>>(); std::vector<T> ref; for (u64 i = 0; i < q.v.size(); ++i) ref.push_back(r(i, q.v[i]));
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, q.s, ref, l); } gradcheck<T>(l, f, q); }
template <typename T, typename F, typename R> void un(const char *l, F f, R r, gvar<T> const &q) { val1<T>(l, f, [&](u64, T x) { return r(x); }, q); }
HARNESS(div_eq) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gvb<T>({3,4}, 0.01, 100); bin<T>("div eq", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_tail) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gvb<T>({4}, 0.01, 100); bin<T>("div tail", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_tail2) { typedef double T; auto qa = gv<T>({2,3,2}); auto qb = gvb<T>({3,2}, 0.01, 100); bin<T>("div tail2", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_swap) { typedef double T; auto qa = gv<T>({4}); auto qb = gvb<T>({3,4}, 0.01, 100); bin<T>("div swap", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_col) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gvb<T>({3,1}, 0.01, 100); bin<T>("div col", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_row) { typedef double T; auto qa = gv<T>({1,4}); auto qb = gvb<T>({3,4}, 0.01, 100); bin<T>("div row", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_outer) { typedef double T; auto qa = gv<T>({3,1}); auto qb = gvb<T>({1,4}, 0.01, 100); bin<T>("div outer", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_outer2) { typedef double T; auto qa = gv<T>({2,1,3}); auto qb = gvb<T>({4,1}, 0.01, 100); bin<T>("div outer2", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_one) { typedef double T; auto qa = gv<T>({1}); auto qb = gvb<T>({2,3}, 0.01, 100); bin<T>("div one", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_one2) { typedef double T; auto qa = gv<T>({2,3}); auto qb = gvb<T>({1,1}, 0.01, 100); bin<T>("div one2", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_mid) { typedef double T; auto qa = gv<T>({2,3,2}); auto qb = gvb<T>({2,1,2}, 0.01, 100); bin<T>("div mid", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_long) { typedef double T; auto qa = gv<T>({11}); auto qb = gvb<T>({11}, 0.01, 100); bin<T>("div long", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_lead) { typedef double T; auto qa = gv<T>({1,1,3}); auto qb = gvb<T>({2,3}, 0.01, 100); bin<T>("div lead", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_grow) { typedef double T; auto qa = gv<T>({3,1}); auto qb = gvb<T>({4}, 0.01, 100); bin<T>("div grow", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_big) { typedef double T; auto qa = gv<T>({9,2}); auto qb = gvb<T>({1,2}, 0.01, 100); bin<T>("div big", [](auto &a, auto &b) { return a / b; }, [](T x, T y) { return x/y; }, qa, qb); }
HARNESS(div_bigcol) { typedef double T; auto qa = gv<T>({9,2}); auto qb = gvb<T>({9,1}, 0.01, 100); bin<T>("div bigcol", [](auto &a, auto &b) { return divide(a, b); }, [](T x, T y) { return x/y; }, qa, qb); }
