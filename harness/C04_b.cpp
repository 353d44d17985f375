#include "sym.hpp"
using namespace vh;
template <typename T> std::vector<T> mm(std::vector<T> const &a, std::vector<T> const &b, u64 m, u64 n, u64 k) { std::vector<T> r; for (u64 i = 0; i < m; ++i) for (u64 j = 0; j < k; ++j) { T s = 0; for (u64 x = 0; x < n; ++x) s += a[i * n + x] * b[x * k + j]; r.push_back(s); } return r; }
template <typename T> void tens(u64 m, u64 n, u64 k) {
  auto a = arb<T>({m, n}), b = arb<T>({n, k}); auto A = snap(a), B = snap(b); auto ref = mm(A, B, m, n, k);
  want(tensor<T>(a * b), {m, k}, ref, "tensor *"); want(multiply(a, b), {m, k}, ref, "multiply");
  tensor<T> c = arb<T>({2, 3}); multiply(a, b, c); want(c, {m, k}, ref, "multiply into a used tensor"); multiply(a, b, c); want(c, {m, k}, ref, "multiply twice");
  sym_eq(a.data(), A.data(), A.size(), "left kept"); sym_eq(b.data(), B.data(), B.size(), "right kept"); }
HARNESS(tensor_mul) { u64 m = sym_choose(1, 3), n = sym_choose(1, 3), k = sym_choose(1, 3); tens<float>(m, n, k); }
HARNESS(tensor_mul_d) { tens<double>(9, 2, 3); tens<double>(2, 10, 2); tens<double>(3, 2, 9); }
HARNESS(vec_mat) { auto a = arb<double>({3}), b = arb<double>({3, 4}); auto A = snap(a), B = snap(b); want(tensor<double>(a * b), {1, 4}, mm(A, B, 1, 3, 4), "1D * 2D"); sym_eq(a.data(), A.data(), 3, "kept"); sym_assert(same_shape(a, {3}), "1D operand keeps its shape"); }
HARNESS(mat_vec) { auto a = arb<double>({2, 3}), b = arb<double>({3}); auto A = snap(a), B = snap(b); want(tensor<double>(a * b), {2, 1}, mm(A, B, 2, 3, 1), "2D * 1D"); sym_eq(b.data(), B.data(), 3, "kept"); sym_assert(same_shape(b, {3}), "1D operand keeps its shape"); }
HARNESS(vec_vec) { auto a = arb<double>({3}), b = arb<double>({3}); auto A = snap(a), B = snap(b); want(tensor<double>(a * b), {1, 1}, mm(A, B, 1, 3, 1), "1D * 1D"); }
template <typename T> void expr(u64 m, u64 n, u64 k, bool alias) {
  auto qa = gv<T>({m, n}), qb = gv<T>({n, k}); auto ref = mm(qa.v, qb.v, m, n, k); auto &s = get_default_session<tensor<T>>();
  auto a = variable<tensor<T>>{from<T>(qa.s, qa.v)}; auto b = variable<tensor<T>>{from<T>(qb.s, qb.v)};
  auto run = [&](auto &e) { sym_assert(same_shape(e.shape(), {m, k}), "static shape"); tensor<T> t = s.run(e); want(t, {m, k}, ref, "a*b"); auto q2 = gv<T>({m, n}); auto keep = a.data().deep_copy(); a.data().deep_copy(from<T>(q2.s, q2.v)); tensor<T> u = s.run(e); want(u, {m, k}, mm(q2.v, qb.v, m, n, k), "a*b after a changed"); };
  if (alias) { auto e = multiply(a, b); run(e); } else { auto e = a * b; run(e); }
  gradcheck<T>("matmul", [](auto &x, auto &y) { return x * y; }, qa, qb); }
HARNESS(expr_small) { u64 m = sym_choose(1, 3), n = sym_choose(1, 3), k = sym_choose(1, 3); expr<double>(m, n, k, false); }
HARNESS(expr_f) { expr<float>(2, 3, 2, true); }
HARNESS(expr_wide) { expr<double>(2, 3, 9, false); }
HARNESS(expr_tall) { expr<double>(9, 2, 2, true); }
HARNESS(expr_deep) { expr<double>(2, 9, 2, false); }
HARNESS(self) { gradcheck<double>("a*a", [](auto &x) { return x * x; }, gv<double>({3, 3})); }
HARNESS(self_t) { gradcheck<double>("a*transpose(a)", [](auto &x) { return x * transpose(x); }, gv<double>({2, 3})); }
HARNESS(chain) { gradcheck<double>("a*b*c", [](auto &x, auto &y, auto &z) { return x * y * z; }, gv<double>({2, 3}), gv<double>({3, 2}), gv<double>({2, 4})); }
HARNESS(chain_r) { gradcheck<double>("a*(b*c)", [](auto &x, auto &y, auto &z) { return x * (y * z); }, gv<double>({2, 1}), gv<double>({1, 2}), gv<double>({2, 3})); }
HARNESS(affine) { gradcheck<double>("x*w+b", [](auto &x, auto &w, auto &b) { return x * w + b; }, gv<double>({3, 2}), gv<double>({2, 3}), gv<double>({1, 3})); }
