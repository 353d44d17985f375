// BOUND: statistics over an axis of 40, 70 or 258 elements, maxima over 9, sums over 700; 5000 elements for some
#include "sym.hpp"
using namespace vh;
typedef double T;
template <typename F, typename R> static void ax(F f, R r) { shp s = sym_choose(0, 1) ? shp{9, 40, 2} : shp{3, 1, 258}; u64 a = s[1] == 1 ? 2 : 1, n = s[a], post = s[1] == 1 ? 1 : 2; auto t = arb<T>(s); auto v = snap(t); tensor<T> o = f(t, a); std::vector<T> w; for (u64 i = 0; i < s[0]; ++i) for (u64 j = 0; j < post; ++j) { std::vector<T> l; for (u64 k = 0; k < n; ++k) l.push_back(v[(i * n + k) * post + j]); w.push_back(r(l)); } want(o, {s[0], s[1] == 1 ? 1UL : 2UL}, w, "value"); sym_eq(t.data(), v.data(), v.size(), "input kept"); }
HARNESS(wide_sum) { ax([](auto &t, u64 a) { return sum(t, a, false); }, [](auto &l) { T s = 0; for (T x : l) s += x; return s; }); }
HARNESS(wide_mean) { ax([](auto &t, u64 a) { return mean(t, a, false); }, [](auto &l) { T s = 0; for (T x : l) s += x; return s / l.size(); }); }
HARNESS(wide_max) { auto t = arb<T>({5, 9}); auto v = snap(t); std::vector<T> w; for (u64 i = 0; i < 5; ++i) { T m = v[i * 9]; for (u64 k = 1; k < 9; ++k) m = v[i * 9 + k] > m ? v[i * 9 + k] : m; w.push_back(m); } tensor<T> o = max(t, 1, false); want(o, {5}, w, "value"); }
HARNESS(wide_all) { auto t = arb<T>({7, 100}), u = arb<T>({7, 100}); auto A = snap(t), B = snap(u); T s = 0; for (T x : A) s += x; T o[] = {sum(t), mean(t)}, r[] = {s, s / 700}; sym_eq(o, r, 2, "sum, mean"); auto p = A, q = A, d = A; for (u64 i = 0; i < 700; ++i) p[i] += B[i], q[i] -= B[i], d[i] *= B[i]; want(t + u, {7, 100}, p, "plus"); want(t - u, {7, 100}, q, "minus"); want(elementwise_product(t, u), {7, 100}, d, "product"); want(reduce_sum(t), {1}, std::vector<T>{s}, "reduce_sum"); auto c = t.deep_copy(); c += u; want(c, {7, 100}, p, "+="); want(t, {7, 100}, A, "operand kept"); want(u, {7, 100}, B, "operand kept"); }
HARNESS(wide_5000) { auto t = arb<T>({5000}), u = arb<T>({5000}); auto A = snap(t), B = snap(u); auto p = A, q = A, m = A; T s = 0; for (u64 i = 0; i < 5000; ++i) p[i] += B[i], q[i] -= B[i], m[i] *= 2, s += A[i]; want(t + u, {5000}, p, "plus"); want(t - u, {5000}, q, "minus"); want(t * 2.0, {5000}, m, "scaled"); T a = sum(t); sym_eq(&a, &s, 1, "sum"); t += u; want(t, {5000}, p, "+="); want(u, {5000}, B, "operand kept"); }
