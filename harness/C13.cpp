// Optimizers: the update they apply to every trainable variable.
// BOUND: three consecutive training steps (five when optimizers are switched) with arbitrary gradients at every step, variables of 6 and 9 elements with arbitrary values (the latter beyond the threshold of the parallel loop), arbitrary learning rate and momentum in (0, 1), batch sizes 1 to 4, arbitrary decay in (0, 1), the listed decay rates of the moments
// ASSUME: floating point arithmetic is interpreted as real arithmetic
// OUTSIDE: amsgrad and the momentum of gradient_descent, which the library accepts and ignores; the learning rate schedule divides by 1 + decay * i at step i, cumulatively; adam takes plain gradient steps in its first two iterations
#include "sym.hpp"
using namespace vh;
typedef double T;
struct st { T a = 0, b = 0; };
static T unit() { T v; sym_fill(&v, 1); sym_assume((v > T(0)) & (v < T(1))); return v; }
struct bench {
  variable<tensor<T>> w1, w2, frozen, idle; place_holder<tensor<T>> x1, x2, x3; std::vector<T> d1, d2, f, i; std::vector<st> s1, s2;
  bench() : w1{arb<T>({2, 3})}, w2{arb<T>({9})}, frozen{arb<T>({2, 2}), 0, 0, false}, idle{arb<T>({3})} { d1 = snap(w1.data()); d2 = snap(w2.data()); f = snap(frozen.data()); i = snap(idle.data()); fresh(); }
  void fresh() { s1.assign(6, st{}); s2.assign(9, st{}); }
  auto loss() { return sum_reduce(elementwise_product(w1, x1)) + sum_reduce(elementwise_product(x2, w2)) + sum_reduce(elementwise_product(frozen, x3)); }
  template <typename L, typename O, typename R> void step(L &l, O &o, R upd) {
    auto &s = get_default_session<tensor<T>>(); auto g1 = arb<T>({2, 3}), g2 = arb<T>({9}), g3 = arb<T>({2, 2}); s.bind(x1, g1); s.bind(x2, g2); s.bind(x3, g3); s.run(l); s.run(o); check(g1, g2, upd); }
  template <typename R> void check(tensor<T> const &g1, tensor<T> const &g2, R upd) {
    for (u64 k = 0; k < 6; ++k) upd(d1[k], g1.data()[k], s1[k]); for (u64 k = 0; k < 9; ++k) upd(d2[k], g2.data()[k], s2[k]);
    want(w1.data(), {2, 3}, d1, "first variable"); want(w2.data(), {9}, d2, "second variable"); want(frozen.data(), {2, 2}, f, "frozen variable"); want(idle.data(), {3}, i, "variable outside the loss");
    want(w1.gradient(), {2, 3}, std::vector<T>(6, T(0)), "gradient consumed"); want(w2.gradient(), {9}, std::vector<T>(9, T(0)), "gradient consumed"); }
};
#define UPD [&](T & d, T g, st & m)
template <typename M> void plain(M mk, bool factory) { (void)factory; learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(); u64 n = sym_choose(1, 4); auto o = mk(l, n, lr); for (int k = 0; k < 3; ++k) b.step(l, o, UPD { (void)m; d -= lr / T(n) * g; }); }
HARNESS(gradient_descent) { plain([](auto &l, u64 n, T lr) { return gradient_descent{l, n, lr}; }, false); }
HARNESS(sgd) { plain([](auto &l, u64 n, T lr) { return sgd{l, n, lr}; }, false); }
HARNESS(sgd_factory) { plain([](auto &l, u64 n, T lr) { return SGD(n, lr)(l); }, true); }
HARNESS(sgd_momentum) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), mo = unit(); u64 n = sym_choose(1, 2); auto o = sgd{l, n, lr, mo}; for (int k = 0; k < 3; ++k) b.step(l, o, UPD { m.a = mo * m.a - lr / T(n) * g; d += m.a; }); }
HARNESS(sgd_nesterov) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), mo = unit(); u64 n = sym_choose(1, 2); auto o = sgd{l, n, lr, mo, T(0), true}; for (int k = 0; k < 3; ++k) b.step(l, o, UPD { m.a = mo * m.a - lr / T(n) * g; d += mo * m.a - lr / T(n) * g; }); }
HARNESS(sgd_negative_momentum) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(); auto o = sgd{l, 2, lr, T(-0.5), T(-0.5)}; for (int k = 0; k < 2; ++k) b.step(l, o, UPD { (void)m; d -= lr / 2 * g; }); }
HARNESS(sgd_decay) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), dc = unit(); auto o = sgd{l, 2, lr, T(0), dc}; T r = lr / 2; for (int k = 0; k < 3; ++k) { r /= 1 + dc * k; b.step(l, o, UPD { (void)m; d -= r * g; }); } }
// no forward pass between two steps: the same gradient is applied again
HARNESS(sgd_twice) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), mo = unit(); auto o = sgd{l, 1, lr, mo}; auto &s = get_default_session<tensor<T>>(); auto g1 = arb<T>({2, 3}), g2 = arb<T>({9}), g3 = arb<T>({2, 2}); s.bind(b.x1, g1); s.bind(b.x2, g2); s.bind(b.x3, g3); s.run(l); for (int k = 0; k < 2; ++k) { o.forward(); b.check(g1, g2, UPD { m.a = mo * m.a - lr * g; d += m.a; }); } }
template <typename M> void ag(M mk, bool decay) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), dc = decay ? unit() : T(0); u64 n = decay ? 2 : sym_choose(1, 3); auto o = mk(l, n, lr, dc); T r = lr / T(n); for (int k = 0; k < 3; ++k) { r /= 1 + dc * k; b.step(l, o, UPD { m.a += g * g; d -= r * g / (T(1e-8) + std::sqrt(m.a)); }); } }
HARNESS(adagrad) { ag([](auto &l, u64 n, T lr, T) { return adagrad{l, n, lr}; }, false); }
HARNESS(adagrad_decay) { ag([](auto &l, u64 n, T lr, T dc) { return adagrad{l, n, lr, dc}; }, true); }
HARNESS(adagrad_factory) { ag([](auto &l, u64 n, T lr, T dc) { return Adagrad(n, lr, dc)(l); }, true); }
template <typename M> void rms(M mk, bool decay, T rho) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), dc = decay ? unit() : T(0); u64 n = decay ? 2 : sym_choose(1, 3); auto o = mk(l, n, lr, dc); T r = lr / T(n); for (int k = 0; k < 3; ++k) { r /= 1 + dc * k; b.step(l, o, UPD { m.a = k ? rho * m.a + (1 - rho) * g * g : g * g; d -= r * g / (T(1e-8) + std::sqrt(m.a)); }); } }
HARNESS(rmsprop) { rms([](auto &l, u64 n, T lr, T) { return rmsprop{l, n, lr}; }, false, 0.9); }
HARNESS(rmsprop_rho) { rms([](auto &l, u64 n, T lr, T dc) { return rmsprop{l, n, lr, 0.75, dc}; }, true, 0.75); }
HARNESS(rmsprop_factory) { rms([](auto &l, u64 n, T lr, T dc) { return RMSprop(n, lr, 0.5, dc)(l); }, true, 0.5); }
template <typename M> void ad(M mk, T rho) { learning_phase = 1; bench b; auto l = b.loss(); u64 n = sym_choose(1, 2); auto o = mk(l, n, rho); for (int k = 0; k < 3; ++k) b.step(l, o, UPD { m.a = rho * m.a + (1 - rho) * g * g; T u = g / T(n) * std::sqrt((m.b + T(1e-8)) / (m.a + T(1e-8))); d -= u; m.b = rho * m.b + (1 - rho) * u * u; }); }
HARNESS(adadelta) { ad([](auto &l, u64 n, T rho) { return adadelta{l, n, rho}; }, 0.9); }
HARNESS(adadelta_factory) { ad([](auto &l, u64 n, T rho) { return Adadelta(n, rho)(l); }, 0.5); }
template <typename R> void adam_upd(R &d, T g, st &m, int k, T lr, T b1, T b2) { m.a = b1 * m.a + (1 - b1) * g; m.b = b2 * m.b + (1 - b2) * g * g; T p1 = 1, p2 = 1; for (int i = 0; i <= k; ++i) p1 *= b1, p2 *= b2; if (k > 1) d -= lr * std::sqrt(1 - p2) / (1 - p1) * m.a / (T(1e-8) + std::sqrt(m.b)); else d -= lr * g; }
template <typename M> void am(M mk, T b1, T b2, int steps) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(); u64 n = sym_choose(1, 2); auto o = mk(l, n, lr, b1, b2); for (int k = 0; k < steps; ++k) b.step(l, o, UPD { adam_upd(d, g, m, k, lr / T(n), b1, b2); }); }
HARNESS(adam) { am([](auto &l, u64 n, T lr, T, T) { return adam{l, n, lr}; }, 0.9, 0.999, 3); }
HARNESS(adam_beta) { am([](auto &l, u64 n, T lr, T b1, T b2) { return adam{l, n, lr, b1, b2}; }, 0.5, 0.75, 4); }
HARNESS(adam_factory) { am([](auto &l, u64 n, T lr, T b1, T b2) { return Adam(n, lr, b1, b2)(l); }, 0.75, 0.5, 3); }
// one optimizer after another on the same variables
HARNESS(sgd_then_adam) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), mo = unit(); auto o = sgd{l, 1, lr, mo}; for (int k = 0; k < 2; ++k) b.step(l, o, UPD { m.a = mo * m.a - lr * g; d += m.a; }); b.fresh(); auto q = adam{l, 1, lr, 0.5, 0.75}; for (int k = 0; k < 3; ++k) b.step(l, q, UPD { adam_upd(d, g, m, k, lr, 0.5, 0.75); }); }
HARNESS(adam_then_sgd) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), mo = unit(); auto q = adam{l, 1, lr, 0.5, 0.75}; for (int k = 0; k < 2; ++k) b.step(l, q, UPD { adam_upd(d, g, m, k, lr, 0.5, 0.75); }); b.fresh(); auto o = sgd{l, 1, lr, mo}; for (int k = 0; k < 2; ++k) b.step(l, o, UPD { m.a = mo * m.a - lr * g; d += m.a; }); }
HARNESS(adagrad_then_adadelta) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), rho = 0.5; auto q = adagrad{l, 1, lr}; for (int k = 0; k < 1; ++k) b.step(l, q, UPD { m.a += g * g; d -= lr * g / (T(1e-8) + std::sqrt(m.a)); }); b.fresh(); auto o = adadelta{l, 1, rho}; for (int k = 0; k < 2; ++k) b.step(l, o, UPD { m.a = rho * m.a + (1 - rho) * g * g; T u = g * std::sqrt((m.b + T(1e-8)) / (m.a + T(1e-8))); d -= u; m.b = rho * m.b + (1 - rho) * u * u; }); }
HARNESS(sgd_then_adagrad) { learning_phase = 1; bench b; auto l = b.loss(); T lr = unit(), mo = unit(); auto o = sgd{l, 1, lr, mo}; for (int k = 0; k < 2; ++k) b.step(l, o, UPD { m.a = mo * m.a - lr * g; d += m.a; }); b.fresh(); auto q = adagrad{l, 1, lr}; for (int k = 0; k < 2; ++k) b.step(l, q, UPD { m.a += g * g; d -= lr * g / (T(1e-8) + std::sqrt(m.a)); }); }
