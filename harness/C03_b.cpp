#include "sym.hpp"
using namespace vh;
inline shp bshape(shp a, shp b) { while (a.size() < b.size()) a.insert(a.begin(), 1); while (b.size() < a.size()) b.insert(b.begin(), 1); for (u64 i = 0; i < a.size(); ++i) if (a[i] == 1) a[i] = b[i]; return a; }
inline u64 bidx(u64 flat, shp const &o, shp const &a) { u64 off = 0, mul = 1; for (u64 k = 0; k < o.size(); ++k) { u64 d = o.size() - 1 - k, c = flat % o[d]; flat /= o[d]; if (k < a.size()) { u64 e = a[a.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } return off; }
template <typename T, typename F, typename R> void val(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) {
  auto a = variable<tensor<T>>{from<T>(qa.s, qa.v)}; auto b = variable<tensor<T>>{from<T>(qb.s, qb.v)}; auto e = f(a, b); auto &s = get_default_session<tensor<T>>();
  shp o = bshape(qa.s, qb.s); std::vector<T> ref; for (u64 i = 0; i < prod(o); ++i) ref.push_back(r(qa.v[bidx(i, o, qa.s)], qb.v[bidx(i, o, qb.s)]));
  sym_assert(same_shape(e.shape(), o), "static shape");
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, o, ref, l); }
  sym_eq(a.data().data(), qa.v.data(), qa.v.size(), "left operand kept"); sym_eq(b.data().data(), qb.v.data(), qb.v.size(), "right operand kept"); }
template <typename T, typename F, typename R> void bin(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) { val<T>(l, f, r, qa, qb); gradcheck<T>(l, f, qa, qb); }
template <typename T, typename F, typename R> void val1(const char *l, F f, R r, gvar<T> const &q) {
  auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = f(a); auto &s = get_default_session<tensor<T>>(); std::vector<T> ref; for (u64 i = 0; i < q.v.size(); ++i) ref.push_back(r(i, q.v[i]));
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, q.s, ref, l); } gradcheck<T>(l, f, q); }
template <typename T, typename F, typename R> void un(const char *l, F f, R r, gvar<T> const &q) { val1<T>(l, f, [&](u64, T x) { return r(x); }, q); }
HARNESS(minus_eq) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({3,4}); bin<T>("minus eq", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_tail) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({4}); bin<T>("minus tail", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_tail2) { typedef double T; auto qa = gv<T>({2,3,2}); auto qb = gv<T>({3,2}); bin<T>("minus tail2", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_swap) { typedef double T; auto qa = gv<T>({4}); auto qb = gv<T>({3,4}); bin<T>("minus swap", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_col) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({3,1}); bin<T>("minus col", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_row) { typedef double T; auto qa = gv<T>({1,4}); auto qb = gv<T>({3,4}); bin<T>("minus row", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_outer) { typedef double T; auto qa = gv<T>({3,1}); auto qb = gv<T>({1,4}); bin<T>("minus outer", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_outer2) { typedef double T; auto qa = gv<T>({2,1,3}); auto qb = gv<T>({4,1}); bin<T>("minus outer2", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_one) { typedef double T; auto qa = gv<T>({1}); auto qb = gv<T>({2,3}); bin<T>("minus one", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_one2) { typedef double T; auto qa = gv<T>({2,3}); auto qb = gv<T>({1,1}); bin<T>("minus one2", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_mid) { typedef double T; auto qa = gv<T>({2,3,2}); auto qb = gv<T>({2,1,2}); bin<T>("minus mid", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_long) { typedef double T; auto qa = gv<T>({11}); auto qb = gv<T>({11}); bin<T>("minus long", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_lead) { typedef double T; auto qa = gv<T>({1,1,3}); auto qb = gv<T>({2,3}); bin<T>("minus lead", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_grow) { typedef double T; auto qa = gv<T>({3,1}); auto qb = gv<T>({4}); bin<T>("minus grow", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_big) { typedef double T; auto qa = gv<T>({9,2}); auto qb = gv<T>({1,2}); bin<T>("minus big", [](auto &a, auto &b) { return a - b; }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(minus_bigcol) { typedef double T; auto qa = gv<T>({9,2}); auto qb = gv<T>({9,1}); bin<T>("minus bigcol", [](auto &a, auto &b) { return minus(a, b); }, [](T x, T y) { return x-y; }, qa, qb); }
HARNESS(vadd) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("vadd", [](auto &a) { return a + value{1.25}; }, [](T x) { return x+T(1.25); }, q); }
HARNESS(subv) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("subv", [](auto &a) { return a - value{1.25}; }, [](T x) { return x-T(1.25); }, q); }
HARNESS(vsub) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("vsub", [](auto &a) { return value{1.25} - a; }, [](T x) { return T(1.25)-x; }, q); }
HARNESS(vmul) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("vmul", [](auto &a) { return value{1.25} * a; }, [](T x) { return x*T(1.25); }, q); }
HARNESS(vmax) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("vmax", [](auto &a) { return maximum(value{0.0}, a); }, [](T x) { return x>0?x:T(0); }, q); }
