// BOUND: tensors of 260 to 1040 elements for the operators listed in this file's harnesses (wide_*), double and float; 5000 elements for some
#include "sym.hpp"
using namespace vh;
template <typename T, typename F, typename R> static void wide(F f, R r, gvar<T> q, const char *l) { auto &s = get_default_session<tensor<T>>(); variable<tensor<T>> a{from<T>(q.s, q.v)}; auto e = f(a); std::vector<T> ref; for (T x : q.v) ref.push_back(r(x)); for (int k = 0; k < 2; ++k) { tensor<T> o = s.run(e); want(o, q.s, ref, l); } sym_eq(a.data().data(), q.v.data(), q.v.size(), "input kept"); }
#define W(n, t, g, ex, r) HARNESS(wide_##n) { wide<t>([](auto &a) { return ex; }, [](t x) -> t { return r; }, g, #n); }
W(relu, double, gv<double>({8, 5, 26}), relu(a), x > 0 ? x : 0)
W(leaky_relu, float, gv<float>({1040}), leaky_relu(0.25f)(a), x > 0 ? x : x / 4)
W(exp, double, gv<double>({260}), exp(a), std::exp(x))
W(sin, float, gv<float>({130, 2}), sin(a), std::sin(x))
W(square, double, gv<double>({2, 2, 5, 13}), square(a), x * x)
W(negative, double, gv<double>({1, 1040}), negative(a), -x)
W(abs, double, gv<double>({260, 1}), abs(a), x < 0 ? -x : x)
W(clip, double, gv<double>({20, 13}), clip(-1.0, 2.0)(a), x < -1 ? -1 : x > 2 ? 2 : x)
W(sigmoid, double, gv<double>({26, 10}), sigmoid(a), 1 / (1 + std::exp(-x)))
W(inverse, double, gvb<double>({26, 10}, 0.001, 1000), inverse(a), 1 / x)
W(plus_value, double, gv<double>({26, 10}), a + 1.75, x + 1.75)
HARNESS(wide_softmax) { auto &s = get_default_session<tensor<double>>(); auto q = gv<double>({40, 3}); variable<tensor<double>> a{from<double>(q.s, q.v)}; auto e = softmax(a); tensor<double> o = s.run(e); std::vector<double> r; for (int i = 0; i < 40; ++i) { double m = q.v[i * 3], z = 0; for (int j = 1; j < 3; ++j) m = m < q.v[i * 3 + j] ? q.v[i * 3 + j] : m; for (int j = 0; j < 3; ++j) z += std::exp(q.v[i * 3 + j] - m); for (int j = 0; j < 3; ++j) r.push_back(std::exp(q.v[i * 3 + j] - m) / z); } sym_assert(same_shape(o, {40, 3}), "shape"); std::vector<double> d(120), O(120, 0.0); for (int i = 0; i < 120; ++i) d[i] = o.data()[i] - r[i]; bool ok = true; for (double x : d) ok = ok & (x < 1e-6) & (x > -1e-6); sym_assert(ok, "softmax"); }
W(relu_5000, double, gv<double>({50, 100}), -a + 1.0, 1 - x)
