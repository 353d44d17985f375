// BOUND: batch normalisation of 17x2, of an image batch of 1x3x5x2, of 2x20 and (gradient) of 9x1 (arbitrary entries), dropout predicting on 300 elements; running averages over twenty batches
#include "mover.hpp"
using namespace vh;
typedef double T;
static void norm(shp is, bool back) { auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> ph; rec<T> r; auto e = normalization_batch(0.5)(probe(r, ph)); u64 c = is.back(), n = prod(is) / c; learning_phase = 1; auto t = arb<T>(is); auto X = snap(t); s.bind(ph, t); tensor<T> o = s.run(e).deep_copy(); std::vector<T> a(c, T(0)), v(c, T(0)), w, p; for (u64 i = 0; i < X.size(); ++i) a[i % c] += X[i] / T(n); for (u64 i = 0; i < X.size(); ++i) v[i % c] += (X[i] - a[i % c]) * (X[i] - a[i % c]); for (auto &x : v) x /= T(n);
  if (!back) { for (u64 i = 0; i < X.size(); ++i) w.push_back((X[i] - a[i % c]) / std::sqrt(v[i % c] + eps)); want(o, is, w, "value"); learning_phase = 0; auto u = arb<T>(is); auto U = snap(u); s.bind(ph, u); tensor<T> q = s.run(e).deep_copy(); for (u64 i = 0; i < U.size(); ++i) p.push_back((U[i] - a[i % c] / 2) / std::sqrt(v[i % c] / 2 + eps)); want(q, is, p, "prediction"); want(u, is, U, "input kept"); }
  else { auto O = snap(o); auto g = arb<T>(is); auto G = snap(g); e.backward(g); std::vector<T> m(c, T(0)), k(c, T(0)); for (u64 i = 0; i < G.size(); ++i) m[i % c] += G[i] / T(n), k[i % c] += G[i] * O[i] / T(n); for (u64 i = 0; i < G.size(); ++i) w.push_back((G[i] - m[i % c] - O[i] * k[i % c]) / std::sqrt(v[i % c] + eps)); sym_assert(r.v->size() == w.size(), "size of the gradient"); sym_eq(r.v->data(), w.data(), w.size(), "gradient"); } want(t, is, X, "input kept"); learning_phase = 1; }
HARNESS(wide_rows) { norm({17, 2}, false); }
HARNESS(wide_image) { norm({1, 3, 5, 2}, false); }
HARNESS(wide_channels) { norm({2, 20}, false); }
HARNESS(wide_gradient) { norm({9, 1}, true); }
HARNESS(wide_dropout) { learning_phase = 0; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> ph; auto e = drop_out(T(0.25))(ph); auto t = arb<T>({20, 15}); auto X = snap(t); s.bind(ph, t); tensor<T> o = s.run(e); want(o, {20, 15}, X, "prediction"); learning_phase = 1; }
// the running averages over many batches of changing size
HARNESS(long_training) { auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> ph; auto e = normalization_batch(0.5)(ph); std::vector<T> A(2, T(0)), Q(2, T(0)); static const u64 N[] = {2, 3, 1, 4, 2, 2, 9, 3}; for (int k = 0; k < 20; ++k) { learning_phase = 1; u64 n = N[k % 8]; auto t = arb<T>({n, 2}); auto X = snap(t); s.bind(ph, t); tensor<T> o = s.run(e).deep_copy(); sym_assert(same_shape(o, {n, 2}), "shape"); std::vector<T> a(2, T(0)), v(2, T(0)); for (u64 i = 0; i < X.size(); ++i) a[i % 2] += X[i] / T(n); for (u64 i = 0; i < X.size(); ++i) v[i % 2] += (X[i] - a[i % 2]) * (X[i] - a[i % 2]) / T(n); for (int j = 0; j < 2; ++j) A[j] = A[j] / 2 + a[j] / 2, Q[j] = Q[j] / 2 + v[j] / 2; if (k % 3 == 1) { learning_phase = 0; auto u = arb<T>({1, 2}); auto U = snap(u); s.bind(ph, u); tensor<T> q = s.run(e).deep_copy(); std::vector<T> p; for (int j = 0; j < 2; ++j) p.push_back((U[j] - A[j]) / std::sqrt(Q[j] + eps)); want(q, {1, 2}, p, "prediction after many batches"); } } learning_phase = 1; }
