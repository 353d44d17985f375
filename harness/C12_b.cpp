#include "mover.hpp"
using namespace vh;
typedef double T;
// cross entropy on logits: mean over the batch (the first dimension; sum over further positions) of the entropy of the smoothed label against the softmax
template <typename F> void ce(F f, double sm, std::vector<shp> shapes, bool strict = false, int steps = 2) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> a, q; rec<T> r; auto e = f(a, probe(r, q));
  for (int k = 0; k < steps; ++k) { shp is = shapes[sym_choose(0, shapes.size() - 1)]; u64 m = is.back(), n = 1, B = is[0]; for (u64 i = 0; i + 1 < is.size(); ++i) n *= is[i]; tensor<T> lab = zeros_<T>(is); std::vector<u64> cls; for (u64 i = 0; i < n; ++i) { cls.push_back(i < 2 ? sym_choose(0, m - 1) : i % m); lab.data()[i * m + cls[i]] = 1; } auto L = snap(lab);
    auto x = arb<T>(is); auto X = snap(x); std::vector<T> P(n * m); T ref = 0; bool ok = true;
    for (u64 i = 0; i < n; ++i) { T z = 0, mx = X[i * m]; for (u64 j = 1; j < m; ++j) mx = mx < X[i * m + j] ? X[i * m + j] : mx; for (u64 j = 0; j < m; ++j) z += std::exp(X[i * m + j] - mx); z += 1e-8; for (u64 j = 0; j < m; ++j) { T p = std::exp(X[i * m + j] - mx) / z; P[i * m + j] = p; ok = ok & (p > 2e-8); T w = j == cls[i] ? T(1 - sm) : T(sm / (m - 1)); ref -= w * std::log(p); } } sym_assume(ok);
    s.bind(a, lab); s.bind(q, x); tensor<T> o = s.run(e); sym_assert(o.size() == 1, "size"); std::vector<T> V{ref / T(B)}; sym_eq(o.data(), V.data(), 1, "value"); auto g = arb<T>({1}); T g0 = g.data()[0]; e.backward(g); sym_assert(*r.s == is && r.v->size() == n * m, "shape of the gradient");
    std::vector<T> G, Z, O; for (u64 i = 0; i < n * m; ++i) { T w = L[i] > 0.5 ? T(1 - sm) : T(sm / (m - 1)); T y = g0 * (P[i] - w); G.push_back(y / T(B)); Z.push_back(((*r.v)[i] - y / T(B)) * ((*r.v)[i] - y)); O.push_back(0); }
    if (B == 1 || strict) sym_eq(r.v->data(), G.data(), n * m, "gradient"); else sym_eq(Z.data(), O.data(), n * m, "gradient up to the size of the batch");
    want(lab, is, L, "labels kept"); want(x, is, X, "prediction kept"); } }
HARNESS(logits) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x); }, 0, {{1, 3}, {2, 2}}); }
HARNESS(logits_batch) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x); }, 0, {{3, 2}, {2, 3}}, false, 1); }
HARNESS(logits_smoothed) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x, 0.25); }, 0.25, {{1, 3}, {1, 2}}); }
HARNESS(logits_smoothed_batch) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x, 0.125); }, 0.125, {{2, 3}}, false, 1); }
HARNESS(factory) { ce([](auto const &a, auto const &x) { return CategoricalCrossentropy()(x)(a); }, 0, {{1, 3}, {2, 2}}, false, 1); }
HARNESS(factory_smoothed) { ce([](auto const &a, auto const &x) { return CategoricalCrossentropy(0.25)(x)(a); }, 0.25, {{1, 3}}); }
HARNESS(factory2) { ce([](auto const &a, auto const &x) { return CategoricalCrossEntropy()(x)(a); }, 0, {{1, 2}}); }
HARNESS(factory2_smoothed) { ce([](auto const &a, auto const &x) { return CategoricalCrossEntropy(0.25)(x)(a); }, 0.25, {{1, 3}}); }
// a class per position of a sample
HARNESS(logits_positions) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x, 0.25); }, 0.25, {{1, 2, 2}}, false, 1); }
HARNESS(logits_positions_batch) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x, 0.25); }, 0.25, {{2, 1, 2}}, false, 1); }
// the strict form
HARNESS(strict_batch) { ce([](auto const &a, auto const &x) { return cross_entropy_loss(a, x); }, 0, {{2, 2}}, true, 1); }
