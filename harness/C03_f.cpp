#include "sym.hpp"
using namespace vh;
inline shp bshape(shp a, shp b) { while (a.size() < b.size()) a.insert(a.begin(), 1); while (b.size() < a.size()) b.insert(b.begin(), 1); for (u64 i = 0; i < a.size(); ++i) if (a[i] == 1) a[i] = b[i]; return a; }
inline u64 bidx(u64 flat, shp const &o, shp const &a) { u64 off = 0, mul = 1; for (u64 k = 0; k < o.size(); ++k) { u64 d = o.size() - 1 - k, c = flat % o[d]; flat /= o[d]; if (k < a.size()) { u64 e = a[a.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } return off; }
template <typename T, typename F, typename R> void val(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) {
  auto a = variable<tensor<T>>{from<T>(qa.s, qa.v)}; auto b = variable<tensor<T>>{from<T>(qb.s, qb.v)}; auto e = f(a, b); auto &s = get_default_session<tensor<T>>();
  shp o = bshape(qa.s, qb.s); std::vector<T> ref; for (u64 i = 0; i < prod(o); ++i) ref.push_back(r(qa.v[bidx(i, o, qa.s)], qb.v[bidx(i, o, qb.s)]));
  sym_assert(same_shape(e.shape(), o), "static shape");
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, o, ref, l); }
  sym_eq(a.data().data(), qa.v.data(), qa.v.size(), "left operand kept"); sym_eq(b.data().data(), qb.v.data(), qb.v.size(), "right operand kept"); }
template <typename T, typename F, typename R> void bin(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) { val<T>(l, f, r, qa, qb); gradcheck<T>(l, f, qa, qb); }
template <typename T, typename F, typename R> void val1(const char *l, F f, R r, gvar<T> const &q) {
  auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = f(a); auto &s = get_default_session<tensor<T>>(); std::vector<T> ref; for (u64 i = 0; i < q.v.size(); ++i) ref.push_back(r(i, q.v[i]));
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, q.s, ref, l); } gradcheck<T>(l, f, q); }
template <typename T, typename F, typename R> void un(const char *l, F f, R r, gvar<T> const &q) { val1<T>(l, f, [&](u64, T x) { return r(x); }, q); }
HARNESS(atan2_eq) { typedef double T; auto qa = gvb<T>({3,4}, 0.1, 100); auto qb = gvb<T>({3,4}, 0.1, 100); bin<T>("atan2 eq", [](auto &a, auto &b) { return atan2(a, b); }, [](T x, T y) { return std::atan2(x,y); }, qa, qb); }
HARNESS(atan2_long) { typedef double T; auto qa = gvb<T>({11}, 0.1, 100); auto qb = gvb<T>({11}, 0.1, 100); bin<T>("atan2 long", [](auto &a, auto &b) { return atan2(a, b); }, [](T x, T y) { return std::atan2(x,y); }, qa, qb); }
HARNESS(max_eq) { typedef double T; auto qa = gv<T>({3,4}); auto qb = gv<T>({3,4}); for (u64 i = 0; i < qa.v.size(); ++i) sym_assume(qa.v[i] != qb.v[i]); bin<T>("max eq", [](auto &a, auto &b) { return maximum(a, b); }, [](T x, T y) { return x>y?x:y; }, qa, qb); }
HARNESS(max_long) { typedef double T; auto qa = gv<T>({11}); auto qb = gv<T>({11}); for (u64 i = 0; i < qa.v.size(); ++i) sym_assume(qa.v[i] != qb.v[i]); bin<T>("max long", [](auto &a, auto &b) { return maximum(a, b); }, [](T x, T y) { return x>y?x:y; }, qa, qb); }
HARNESS(equal_eq) { typedef double T; auto qa = gv<T>({3,4}), qb = gv<T>({3,4}); val<T>("equal", [](auto &a, auto &b) { return equal(a, b, 0.5); }, [](T x, T y) { T d = x > y ? x - y : y - x; return d > T(0.5) ? T(0) : T(1); }, qa, qb); }
HARNESS(addv) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("addv", [](auto &a) { return value{1.25} + a; }, [](T x) { return x+T(1.25); }, q); }
HARNESS(mulv) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("mulv", [](auto &a) { return a * value{1.25}; }, [](T x) { return x*T(1.25); }, q); }
HARNESS(maxv) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("maxv", [](auto &a) { return maximum(a, value{0.0}); }, [](T x) { return x>0?x:T(0); }, q); }
HARNESS(minv) { typedef double T; auto q = gv<T>({3,3}); for (T x : q.v) sym_assume(x != 0); un<T>("minv", [](auto &a) { return minimum(a, value{0.0}); }, [](T x) { return x<0?x:T(0); }, q); }
