// BOUND: a variable of 300 elements, one used 8 times, 20 variables of one loss, six and fifty consecutive passes
#include "sym.hpp"
using namespace vh;
typedef double T;
typedef variable<tensor<T>> V;
static T factor() { T v; sym_fill(&v, 1); sym_assume((v > T(0.001)) & (v < T(10))); return v; }
static T sgn(T x) { return x > T(0) ? T(1) : T(-1); }
static std::vector<T> nz(tensor<T> const &t) { auto d = snap(t); bool ok = true; for (auto x : d) ok = ok & (x != T(0)); sym_assume(ok); return d; }
HARNESS(wide_variable) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({5, 20, 3}), tx = arb<T>({5, 20, 3}); auto A = nz(ta), X = snap(tx); T l1 = factor(), l2 = factor(); V a{ta, l1, l2}; place_holder<tensor<T>> x; s.bind(x, tx); auto e = elementwise_product(a, x) + elementwise_product(x, a); for (int k = 0; k < 2; ++k) { s.run(e); auto g = arb<T>({5, 20, 3}); std::vector<T> r; for (u64 i = 0; i < 300; ++i) r.push_back(2 * g.data()[i] * X[i] + l1 * sgn(A[i]) + 2 * l2 * A[i]); e.backward(g); want(a.gradient(), {5, 20, 3}, r, "gradient"); want(a.data(), {5, 20, 3}, A, "data kept"); } }
template <int N, typename P> static auto uses(V v, P &p) { if constexpr (N == 1) return elementwise_product(v, p[0]); else return uses<N - 1>(v, p) + elementwise_product(v, p[N - 1]); }
HARNESS(wide_uses) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({3}); auto A = nz(ta); T l1 = factor(), l2 = factor(); V a{ta, l1, l2}; std::vector<place_holder<tensor<T>>> p(8); auto e = uses<8>(a, p); for (int k = 0; k < 6; ++k) { std::vector<T> r(3, T(0)); for (auto &q : p) { auto t = arb<T>({3}); s.bind(q, t); for (int i = 0; i < 3; ++i) r[i] += t.data()[i]; } s.run(e); auto g = arb<T>({3}); for (int i = 0; i < 3; ++i) r[i] = r[i] * g.data()[i] + l1 * sgn(A[i]) + 2 * l2 * A[i]; e.backward(g); want(a.gradient(), {3}, r, "gradient"); } }
template <int N, typename U, typename P> static auto each(U &v, P &p) { if constexpr (N == 1) return elementwise_product(v[0], p[0]); else return each<N - 1>(v, p) + elementwise_product(v[N - 1], p[N - 1]); }
HARNESS(wide_variables) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); std::vector<V> v; std::vector<place_holder<tensor<T>>> p(8); std::vector<std::vector<T>> A, X; std::vector<T> L; for (int i = 0; i < 8; ++i) { auto t = arb<T>({2}), x = arb<T>({2}); A.push_back(nz(t)); X.push_back(snap(x)); s.bind(p[i], x); L.push_back(factor()); v.push_back(i % 2 ? V{t, L[i]} : V{t, T(0), L[i]}); } v[5].trainable(false); auto e = each<8>(v, p); for (int k = 0; k < 2; ++k) { s.run(e); auto g = arb<T>({2}); auto G = snap(g); e.backward(g); for (int i = 0; i < 8; ++i) { std::vector<T> r; for (int j = 0; j < 2; ++j) r.push_back(G[j] * X[i][j] + (i % 2 ? L[i] * sgn(A[i][j]) : 2 * L[i] * A[i][j])); if (i != 5) want(v[i].gradient(), {2}, r, "gradient"); want(v[i].data(), {2}, A[i], "data kept"); } } }
HARNESS(long_passes) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({3}); auto A = nz(ta); T l1 = factor(), l2 = factor(); V a{ta, l1, l2}; place_holder<tensor<T>> x; auto e = elementwise_product(a, x) + elementwise_product(x, a); for (int k = 0; k < 50; ++k) { auto tx = arb<T>({3}); auto X = snap(tx); s.bind(x, tx); s.run(e); if (k % 7 == 5) continue; auto g = arb<T>({3}); std::vector<T> r; for (int i = 0; i < 3; ++i) r.push_back(2 * g.data()[i] * X[i] + l1 * sgn(A[i]) + 2 * l2 * A[i]); e.backward(g); want(a.gradient(), {3}, r, "gradient of a later pass"); if (k % 7 == 6) { a.trainable(!a.trainable()); a.trainable(!a.trainable()); } } want(a.data(), {3}, A, "data kept"); }
