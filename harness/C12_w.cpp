// BOUND: losses of a batch of 40 samples; cross entropy with logits of 9 samples (classes fixed but for the first)
#include "mover.hpp"
using namespace vh;
typedef double T;
template <typename F, typename V, typename D> static void loss(F f, V v, D d, shp is, double lo, double hi) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> a, q; rec<T> r; auto e = f(a, probe(r, q)); auto ga = gvb<T>(is, lo, hi), gx = gvb<T>(is, lo, hi); u64 n = gx.v.size(); T ref = 0; for (u64 i = 0; i < n; ++i) ref += v(ga.v[i], gx.v[i]); auto ta = from<T>(is, ga.v), tx = from<T>(is, gx.v); s.bind(a, ta); s.bind(q, tx); tensor<T> o = s.run(e); want(o, {1}, std::vector<T>{ref / T(n)}, "value"); auto g = arb<T>({1}); T g0 = g.data()[0]; e.backward(g); std::vector<T> G; for (u64 i = 0; i < n; ++i) G.push_back(g0 * d(ga.v[i], gx.v[i]) / T(n)); sym_assert(*r.s == is && r.v->size() == n, "shape of the gradient"); sym_eq(r.v->data(), G.data(), n, "gradient"); }
HARNESS(wide_mse) { loss([](auto const &a, auto const &x) { return mean_squared_error(a, x); }, [](T a, T x) { return (a - x) * (a - x); }, [](T a, T x) { return -2 * (a - x); }, {40, 1}, -1e3, 1e3); }
HARNESS(wide_mae) { loss([](auto const &a, auto const &x) { return mean_absolute_error(a - 3000.0, x); }, [](T a, T x) { return x - (a - 3000); }, [](T, T) { return T(1); }, {40, 1}, -1e3, 1e3); }
HARNESS(wide_bce) { loss([](auto const &a, auto const &x) { return binary_cross_entropy_loss(a, x); }, [](T a, T x) { return -(a * std::log(x) + (1 - a) * std::log(1 - x)); }, [](T a, T x) { return (1 - a) / (1 - x) - a / x; }, {20, 1}, 0.01, 0.99); }
