// Losses: values and the gradient that reaches the prediction.
// BOUND: predictions and labels of shapes 1x3, 2x3, 3x2, 4x1, 9x1 and one-dimensional ones where the loss takes them, arbitrary entries within the domain, every one-hot label for the cross entropy with logits, (also of shapes 1x2x2 and 2x1x2 for the cross entropy with logits), label smoothing 0, 0.1 and 0.3, arbitrary upstream factor, two runs of one loss on differently shaped data
// ASSUME: floating point arithmetic is interpreted as real arithmetic; kinks of the absolute value and of the hinge are excluded; softmax probabilities above the threshold 1e-8 under which the library clips them
// OUTSIDE: labels that are not one-hot for the cross entropy with logits; the gradient with respect to the labels
#include "mover.hpp"
using namespace vh;
typedef double T;
// the value and gradient of element i are sums of v(a, x) and d(a, x) = dv/dx over all elements, divided by N(shape); with the mean the gradient may be that of the sum divided by the batch size (see known_findings.txt), the strict form is checked by strict_*
template <typename F, typename V, typename D> void loss(F f, V v, D d, std::vector<shp> shapes, bool mean, double lo, double hi, double alo, double ahi, bool kink = false, bool strict = false) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> a, q; rec<T> r; auto e = f(a, probe(r, q)); sym_assert(e.shape().size() == 1, "static shape");
  for (int k = 0; k < 2; ++k) { shp is = shapes[sym_choose(0, shapes.size() - 1)]; auto ga = gvb<T>(is, alo, ahi), gx = gvb<T>(is, lo, hi); u64 n = gx.v.size(); T ref = 0; bool ok = true; for (u64 i = 0; i < n; ++i) { if (kink) ok = ok & (v(ga.v[i], gx.v[i], true) != T(0)); ref += v(ga.v[i], gx.v[i], false); } sym_assume(ok);
    auto ta = from<T>(is, ga.v), tx = from<T>(is, gx.v); s.bind(a, ta); s.bind(q, tx); tensor<T> o = s.run(e); std::vector<T> want1{mean ? ref / T(n) : ref}; want(o, {1}, want1, "value"); auto g = arb<T>({1}); T g0 = g.data()[0]; e.backward(g); sym_assert(*r.s == is && r.v->size() == n, "shape of the gradient");
    T batch = is.size() == 1 ? 1 : T(is[0]); std::vector<T> G, Z, O; for (u64 i = 0; i < n; ++i) { T y = g0 * d(ga.v[i], gx.v[i]); G.push_back(mean ? y / T(n) : y); Z.push_back(((*r.v)[i] - y / T(n)) * ((*r.v)[i] - y / batch)); O.push_back(0); }
    if (mean && !strict && batch != T(n)) sym_eq(Z.data(), O.data(), n, "gradient up to the scale of the mean"); else sym_eq(r.v->data(), G.data(), n, "gradient");
    want(ta, is, ga.v, "labels kept"); want(tx, is, gx.v, "prediction kept"); } }
#define L(name, E, V, D, ...) HARNESS(name) { loss([](auto const &a, auto const &x) { return E; }, [](T a, T x, bool k) -> T { (void)k; return V; }, [](T a, T x) -> T { return D; }, __VA_ARGS__); }
L(squared, squared_loss(a, x), (a - x) * (a - x), -2 * (a - x), {{1, 3}, {2, 3}, {9, 1}, {4}}, false, -1e3, 1e3, -1e3, 1e3)
L(mse, mean_squared_error(a, x), (a - x) * (a - x), -2 * (a - x), {{1, 3}, {2, 3}, {9, 1}, {4}}, true, -1e3, 1e3, -1e3, 1e3)
L(mse_alias, mse(a, x), (a - x) * (a - x), -2 * (a - x), {{4, 1}, {3, 2}}, true, -1e3, 1e3, -1e3, 1e3)
L(mse_factory, MSE()(x)(a), (a - x) * (a - x), -2 * (a - x), {{4, 1}, {3, 2}}, true, -1e3, 1e3, -1e3, 1e3)
L(mse_factory2, MeanSquaredError()(x)(a), (a - x) * (a - x), -2 * (a - x), {{4, 1}, {1, 2}}, true, -1e3, 1e3, -1e3, 1e3)
L(absolute, abs_loss(a, x), k ? a - x : (a < x ? x - a : a - x), a < x ? T(1) : T(-1), {{1, 3}, {2, 2}, {4}}, false, -1e3, 1e3, -1e3, 1e3, true)
L(mae_, mean_absolute_error(a, x), k ? a - x : (a < x ? x - a : a - x), a < x ? T(1) : T(-1), {{1, 3}, {2, 2}, {4, 1}}, true, -1e3, 1e3, -1e3, 1e3, true)
L(mae_alias, mae(a, x), k ? a - x : (a < x ? x - a : a - x), a < x ? T(1) : T(-1), {{3, 1}, {1, 2}}, true, -1e3, 1e3, -1e3, 1e3, true)
L(mae_factory, MAE()(x)(a), k ? a - x : (a < x ? x - a : a - x), a < x ? T(1) : T(-1), {{3, 1}, {2, 2}}, true, -1e3, 1e3, -1e3, 1e3, true)
L(mae_factory2, MeanAbsoluteError()(x)(a), k ? a - x : (a < x ? x - a : a - x), a < x ? T(1) : T(-1), {{3, 1}, {1, 2}}, true, -1e3, 1e3, -1e3, 1e3, true)
L(entropy, cross_entropy(a, x), -(a * std::log(x)), -(a / x), {{1, 3}, {2, 3}, {4}}, false, 0.01, 0.99, -1, 2)
L(bce, binary_cross_entropy_loss(a, x), -(a * std::log(x) + (1 - a) * std::log(1 - x)), (1 - a) / (1 - x) - a / x, {{1, 3}, {2, 2}, {4, 1}}, true, 0.01, 0.99, -1, 2)
L(bce_factory, BinaryCrossentropy()(x)(a), -(a * std::log(x) + (1 - a) * std::log(1 - x)), (1 - a) / (1 - x) - a / x, {{1, 2}, {3, 1}}, true, 0.01, 0.99, -1, 2)
L(bce_factory2, BinaryCrossEntropy()(x)(a), -(a * std::log(x) + (1 - a) * std::log(1 - x)), (1 - a) / (1 - x) - a / x, {{1, 2}, {3, 1}}, true, 0.01, 0.99, -1, 2)
L(hinge, hinge_loss(a, x), k ? 1 - a * x : (1 - a * x > 0 ? 1 - a * x : T(0)), 1 - a * x > 0 ? -a : T(0), {{1, 3}, {2, 2}, {4, 1}}, true, -2, 2, -2, 2, true)
L(hinge_factory, Hinge()(x)(a), k ? 1 - a * x : (1 - a * x > 0 ? 1 - a * x : T(0)), 1 - a * x > 0 ? -a : T(0), {{1, 3}, {4, 1}}, true, -2, 2, -2, 2, true)
L(msle, mean_squared_logarithmic_error(a, x), (std::log(1 + a) - std::log(1 + x)) * (std::log(1 + a) - std::log(1 + x)), -2 * (std::log(1 + a) - std::log(1 + x)) / (1 + x), {{1, 3}, {2, 2}, {4, 1}}, true, 0.001, 10, 0.001, 10)
