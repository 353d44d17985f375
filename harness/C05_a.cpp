// Tensor arithmetic and statistics.
// BOUND: tensors of shapes (3,4), (2,3,2), (2,2,2,2), (11), (9,2), (1,5), (1) with arbitrary real entries; every axis from 0 to ndim-1 and -1, with and without keepdims; element types float and double
// ASSUME: floating point arithmetic is interpreted as real arithmetic; softmax may differ from the definition by a relative 1e-4 (it adds a constant 1e-8 to the denominator)
// OUTSIDE: rounding, overflow, NaN; norm() (divides by the number of elements by design); random tensors
#include "sym.hpp"
using namespace vh;
static const std::vector<shp> SH{{3, 4}, {2, 3, 2}, {2, 2, 2, 2}, {11}, {9, 2}, {1, 5}, {1}};
inline shp pick() { return SH[sym_choose(0, SH.size() - 1)]; }
template <typename T, typename F> std::vector<T> red(std::vector<T> const &v, shp const &s, u64 ax, F f) { // f: vector of the elements along the axis -> value
  u64 pre = 1, post = 1; for (u64 i = 0; i < ax; ++i) pre *= s[i]; for (u64 i = ax + 1; i < s.size(); ++i) post *= s[i]; std::vector<T> o;
  for (u64 i = 0; i < pre; ++i) for (u64 j = 0; j < post; ++j) { std::vector<T> l; for (u64 k = 0; k < s[ax]; ++k) l.push_back(v[(i * s[ax] + k) * post + j]); o.push_back(f(l)); } return o; }
template <typename T, typename F, typename R> void axis(const char *l, F f, R r, bool big = true) {
  shp s = pick(); auto t = arb<T>(s); auto v = snap(t); u64 ax = sym_choose(0, s.size()); bool keep = sym_choose(0, 1); u64 rax = ax == s.size() ? s.size() - 1 : ax;
  tensor<T> o = f(t, ax == s.size() ? -1UL : ax, keep); shp os = s; if (keep) os[rax] = 1; else { os.erase(os.begin() + rax); if (os.empty()) os.push_back(1); }
  want(o, os, red(v, s, rax, r), l); sym_eq(t.data(), v.data(), v.size(), "input kept"); sym_assert(same_shape(t, s), "input shape kept"); }
#define SUM T a = 0; for (T x : l) a += x;
HARNESS(sum_axis) { typedef double T; axis<T>("sum", [](auto &t, u64 a, bool k) { return sum(t, a, k); }, [](auto &l) { SUM return a; }); }
HARNESS(sum_axis_f) { typedef float T; axis<T>("sum", [](auto &t, u64 a, bool k) { return sum(t, a, k); }, [](auto &l) { SUM return a; }); }
HARNESS(mean_axis) { typedef double T; axis<T>("mean", [](auto &t, u64 a, bool k) { return mean(t, a, k); }, [](auto &l) { SUM return a / T(l.size()); }); }
HARNESS(variance_axis) { typedef double T; axis<T>("variance", [](auto &t, u64 a, bool k) { return variance(t, a, k); }, [](auto &l) { SUM a /= T(l.size()); T q = 0; for (T x : l) q += (x - a) * (x - a); return q / T(l.size()); }); }
HARNESS(stddev_axis) { typedef double T; axis<T>("standard_deviation", [](auto &t, u64 a, bool k) { return standard_deviation(t, a, k); }, [](auto &l) { SUM a /= T(l.size()); T q = 0; for (T x : l) q += (a - x) * (a - x); return std::sqrt(q / T(l.size())); }); }
HARNESS(max_axis) { typedef double T; axis<T>("max", [](auto &t, u64 a, bool k) { return max(t, a, k); }, [](auto &l) { T m = l[0]; for (T x : l) m = x > m ? x : m; return m; }); }
HARNESS(min_axis) { typedef double T; axis<T>("min", [](auto &t, u64 a, bool k) { return min(t, a, k); }, [](auto &l) { T m = l[0]; for (T x : l) m = x < m ? x : m; return m; }); }
HARNESS(reduce_axis) { typedef double T; axis<T>("reduce", [](auto &t, u64 a, bool k) { return reduce(t, a, T(2), [](auto const &x, auto const &y) { return x + y; }, k); }, [](auto &l) { SUM return a + 2; }); }
HARNESS(scalars) { typedef double T; shp s = pick(); auto t = arb<T>(s); auto l = snap(t); SUM T n = T(l.size()), mx = l[0], mn = l[0]; for (T x : l) { mx = x > mx ? x : mx; mn = x < mn ? x : mn; }
  T q = 0, m = a / n; for (T x : l) q += (x - m) * (x - m); T o[] = {sum(t), mean(t), max(t), amax(t), min(t), amin(t), var(t)}, r[] = {a, m, mx, mx, mn, mn, q / n}; sym_eq(o, r, 2, "sum, mean"); sym_eq(o + 2, r + 2, 2, "max"); sym_eq(o + 4, r + 4, 2, "min"); sym_eq(o + 6, r + 6, 1, "var");
  want(reduce_sum(t), {1}, std::vector<T>{a}, "reduce_sum"); want(reduce_mean(t), {1}, std::vector<T>{m}, "reduce_mean"); sym_eq(t.data(), l.data(), l.size(), "input kept"); }
HARNESS(stddev) { typedef double T; auto t = arb<T>({2, 3}); auto l = snap(t); SUM T n = T(l.size()); T q = 0, m = a / n; for (T x : l) q += (x - m) * (x - m); T o = ceras::std(t), r = std::sqrt(q / n); sym_eq(&o, &r, 1, "std"); }
