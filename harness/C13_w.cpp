// BOUND: variables of 40 and 33 elements over two steps; variables of 2 and 3 elements over eight steps (momentum 0.5)
#include "sym.hpp"
using namespace vh;
typedef double T;
struct st { T a = 0, b = 0; };
static T unit() { T v; sym_fill(&v, 1); sym_assume((v > T(0)) & (v < T(1))); return v; }
template <typename M, typename R> static void train(std::vector<shp> shapes, int steps, M mk, R upd) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); std::vector<variable<tensor<T>>> v; std::vector<place_holder<tensor<T>>> x(2); std::vector<std::vector<T>> d; std::vector<std::vector<st>> m; for (auto &q : shapes) { auto t = arb<T>(q); d.push_back(snap(t)); m.emplace_back(t.size()); v.push_back(variable<tensor<T>>{t}); }
  auto l = sum_reduce(elementwise_product(v[0], x[0])) + sum_reduce(elementwise_product(x[1], v[1])); auto o = mk(l);
  for (int k = 0; k < steps; ++k) { std::vector<tensor<T>> g; for (int i = 0; i < 2; ++i) { g.push_back(arb<T>(shapes[i])); s.bind(x[i], g[i]); } s.run(l); s.run(o); for (int i = 0; i < 2; ++i) { for (u64 j = 0; j < d[i].size(); ++j) upd(d[i][j], g[i].data()[j], m[i][j], k); want(v[i].data(), shapes[i], d[i], "variable"); } } }
static const std::vector<shp> big{{5, 8}, {33}}, tiny{{2}, {1, 3}};
template <typename F> static void both(F f) { if (sym_choose(0, 1)) f(big, 2); else f(tiny, 8); }
HARNESS(wide_sgd) { both([](auto &s, int n) { T lr = unit(); train(s, n, [&](auto &l) { return sgd{l, 1, lr}; }, [&](T &d, T g, st &, int) { d -= lr * g; }); }); }
HARNESS(wide_momentum) { both([](auto &s, int n) { T lr = unit(); train(s, n, [&](auto &l) { return sgd{l, 1, lr, T(0.5)}; }, [&](T &d, T g, st &m, int) { m.a = m.a / 2 - lr * g; d += m.a; }); }); }
HARNESS(wide_nesterov) { both([](auto &s, int n) { T lr = unit(); train(s, n, [&](auto &l) { return sgd{l, 1, lr, T(0.5), T(0), true}; }, [&](T &d, T g, st &m, int) { m.a = m.a / 2 - lr * g; d += m.a / 2 - lr * g; }); }); }
HARNESS(wide_adagrad) { both([](auto &s, int n) { T lr = unit(); train(s, n > 2 ? 5 : 2, [&](auto &l) { return adagrad{l, 1, lr}; }, [&](T &d, T g, st &m, int) { m.a += g * g; d -= lr * g / (T(1e-8) + std::sqrt(m.a)); }); }); }
HARNESS(wide_rmsprop) { both([](auto &s, int n) { T lr = unit(); train(s, n > 2 ? 5 : 2, [&](auto &l) { return rmsprop{l, 1, lr, 0.5}; }, [&](T &d, T g, st &m, int k) { m.a = k ? m.a / 2 + g * g / 2 : g * g; d -= lr * g / (T(1e-8) + std::sqrt(m.a)); }); }); }
HARNESS(wide_adam) { both([](auto &s, int n) { T lr = unit(); train(s, n > 2 ? 5 : 2, [&](auto &l) { return adam{l, 1, lr, 0.5, 0.75}; }, [&](T &d, T g, st &m, int k) { m.a = m.a / 2 + g / 2; m.b = m.b * 0.75 + g * g / 4; T p = 1, q = 1; for (int i = 0; i <= k; ++i) p *= 0.5, q *= 0.75; if (k > 1) d -= lr * std::sqrt(1 - q) / (1 - p) * m.a / (T(1e-8) + std::sqrt(m.b)); else d -= lr * g; }); }); }
