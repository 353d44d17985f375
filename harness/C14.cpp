// Variables: accumulation of the gradient, regularisation, freezing.
// BOUND: variables of 6 and 9 elements with arbitrary values and upstream gradients, used up to three times in an expression (directly, through copies and on both sides of a product), arbitrary regularisation factors in (0.001, 10), up to three consecutive training steps, every order of freezing and building listed, models of one and two dense layers with arbitrary weights
// ASSUME: floating point arithmetic is interpreted as real arithmetic; values are not zero where the l1 norm is differentiated
// OUTSIDE: regularisation factors below 1e-8, which the library ignores; backpropagation in the prediction phase
#include "sym.hpp"
using namespace vh;
typedef double T;
typedef variable<tensor<T>> V;
static T factor() { T v; sym_fill(&v, 1); sym_assume((v > T(0.001)) & (v < T(10))); return v; }
static std::vector<T> nz(tensor<T> const &t) { auto d = snap(t); bool ok = true; for (auto x : d) ok = ok & (x != T(0)); sym_assume(ok); return d; }
static T sgn(T x) { return x > T(0) ? T(1) : T(-1); }
// the gradient of sum over uses, plus the regularisation once
template <typename F> void used(F f, int uses, T l1, T l2, shp sh, int passes) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto t = arb<T>(sh); auto d = nz(t); V v{t, l1, l2}; std::vector<place_holder<tensor<T>>> ph(3); auto e = f(v, ph); u64 n = d.size();
  for (int k = 0; k < passes; ++k) { std::vector<T> ref(n, T(0)); for (int i = 0; i < 3; ++i) { auto x = arb<T>(sh); s.bind(ph[i], x); if (i < uses) for (u64 j = 0; j < n; ++j) ref[j] += x.data()[j]; }
    tensor<T> o = s.run(e); auto g = arb<T>(o.shape()); for (u64 j = 0; j < n; ++j) ref[j] = ref[j] * g.data()[j] + l1 * sgn(d[j]) + l2 * 2 * d[j]; e.backward(g); want(v.gradient(), sh, ref, "gradient"); want(v.data(), sh, d, "data kept"); } }
#define ONE [](V v, auto &p) { return elementwise_product(v, p[0]); }
#define TWO [](V v, auto &p) { return elementwise_product(v, p[0]) + elementwise_product(p[1], v); }
#define THREE [](V v, auto &p) { V w = v; auto a = elementwise_product(w, p[0]) + elementwise_product(p[1], v); return a + elementwise_product(v, p[2]); }
HARNESS(plain1) { used(ONE, 1, 0, 0, {2, 3}, 2); }
HARNESS(plain3) { used(THREE, 3, 0, 0, {9}, 2); }
HARNESS(l1_1) { used(ONE, 1, factor(), 0, {2, 3}, 2); }
HARNESS(l1_2) { used(TWO, 2, factor(), 0, {9}, 2); }
HARNESS(l1_3) { used(THREE, 3, factor(), 0, {2, 3}, 3); }
HARNESS(l2_1) { used(ONE, 1, 0, factor(), {9}, 2); }
HARNESS(l2_2) { used(TWO, 2, 0, factor(), {2, 3}, 3); }
HARNESS(l2_3) { used(THREE, 3, 0, factor(), {9}, 2); }
HARNESS(both_1) { used(ONE, 1, factor(), factor(), {2, 3}, 2); }
HARNESS(both_3) { used(THREE, 3, factor(), factor(), {2, 3}, 2); }
// two variables, one regularised, on the two sides of a product, a shared subexpression
HARNESS(product) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 2}), tb = arb<T>({2, 2}); auto A = nz(ta), B = snap(tb); T l1 = factor(), l2 = factor(); V a{ta, l1, l2}, b{tb}; auto e = a * b; for (int k = 0; k < 2; ++k) { tensor<T> o = s.run(e); auto g = arb<T>({2, 2}); auto G = snap(g); e.backward(g); std::vector<T> ga(4), gb(4); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { ga[i * 2 + j] = G[i * 2] * B[j * 2] + G[i * 2 + 1] * B[j * 2 + 1] + l1 * sgn(A[i * 2 + j]) + 2 * l2 * A[i * 2 + j]; gb[i * 2 + j] = A[i] * G[j] + A[2 + i] * G[2 + j]; } want(a.gradient(), {2, 2}, ga, "gradient"); want(b.gradient(), {2, 2}, gb, "gradient of the other"); } }
HARNESS(square) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 2}); auto A = nz(ta); T l1 = factor(), l2 = factor(); V a{ta, l1, l2}; auto e = a * a; tensor<T> o = s.run(e); auto g = arb<T>({2, 2}); auto G = snap(g); e.backward(g); std::vector<T> ga(4); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ga[i * 2 + j] = G[i * 2] * A[j * 2] + G[i * 2 + 1] * A[j * 2 + 1] + A[i] * G[j] + A[2 + i] * G[2 + j] + l1 * sgn(A[i * 2 + j]) + 2 * l2 * A[i * 2 + j]; want(a.gradient(), {2, 2}, ga, "gradient"); }
HARNESS(shared) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 3}), tx = arb<T>({2, 3}); auto A = nz(ta), X = snap(tx); T l2 = factor(); V a{ta, 0, l2}; place_holder<tensor<T>> x; s.bind(x, tx); auto h = elementwise_product(a, x); auto e = h + h; for (int k = 0; k < 2; ++k) { tensor<T> o = s.run(e); auto g = arb<T>({2, 3}); std::vector<T> r(6); for (int i = 0; i < 6; ++i) r[i] = 2 * g.data()[i] * X[i] + 2 * l2 * A[i]; e.backward(g); want(a.gradient(), {2, 3}, r, "gradient"); } }
// the factors are changed between passes, through a copy
HARNESS(setters) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({9}), tx = arb<T>({9}); auto A = nz(ta), X = snap(tx); V a{ta}; place_holder<tensor<T>> x; s.bind(x, tx); auto e = elementwise_product(a, x); V c = a; T l1 = 0, l2 = 0; for (int k = 0; k < 3; ++k) { if (k == 1) a.l1_regularizer() = l1 = factor(); if (k == 2) { l1 = 0; c.l1_regularizer() = T(0); c.l2_regularizer() = l2 = factor(); } V const &cr = a; sym_assert(cr.l1_regularizer() == l1 && cr.l2_regularizer() == l2, "factors read back"); s.run(e); auto g = arb<T>({9}); std::vector<T> r(9); for (int i = 0; i < 9; ++i) r[i] = g.data()[i] * X[i] + l1 * sgn(A[i]) + 2 * l2 * A[i]; e.backward(g); want(a.gradient(), {9}, r, "gradient"); } }
// forward passes reset the gradient in the training phase only
HARNESS(phases) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 3}), tx = arb<T>({2, 3}); auto A = snap(ta), X = snap(tx); V a{ta}; place_holder<tensor<T>> x; s.bind(x, tx); auto e = elementwise_product(a, x); s.run(e); auto g = arb<T>({2, 3}); std::vector<T> r(6), z(6, T(0)); for (int i = 0; i < 6; ++i) r[i] = g.data()[i] * X[i]; e.backward(g); learning_phase = 0; s.run(e); s.run(e); want(a.gradient(), {2, 3}, r, "gradient kept by a prediction"); learning_phase = 1; s.run(e); want(a.gradient(), {2, 3}, z, "gradient cleared by a training pass"); want(a.data(), {2, 3}, A, "data kept"); }
// two expressions sharing a variable: both run, both backpropagated
HARNESS(two_expressions) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 3}), tx = arb<T>({2, 3}), ty = arb<T>({2, 3}); auto A = nz(ta), X = snap(tx), Y = snap(ty); T l1 = factor(); V a{ta, l1}; place_holder<tensor<T>> x, y; s.bind(x, tx); s.bind(y, ty); auto e = elementwise_product(a, x); auto f = elementwise_product(y, a); s.run(e); s.run(f); auto g = arb<T>({2, 3}), h = arb<T>({2, 3}); std::vector<T> r(6), q(6); for (int i = 0; i < 6; ++i) { q[i] = h.data()[i] * Y[i] + l1 * sgn(A[i]); r[i] = g.data()[i] * X[i] + q[i]; } f.backward(h); want(a.gradient(), {2, 3}, q, "after the first"); e.backward(g); want(a.gradient(), {2, 3}, r, "after both"); }
HARNESS(data_replaced) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); V a{arb<T>({2, 3})}; place_holder<tensor<T>> x; auto e = elementwise_product(a, x); for (shp sh : {shp{2, 3}, shp{9}, shp{2, 2}}) { auto t = arb<T>(sh), tx = arb<T>(sh); auto D = snap(t), X = snap(tx); a.data() = t; s.bind(x, tx); tensor<T> o = s.run(e); std::vector<T> w(D.size()), r(D.size()); auto g = arb<T>(sh); for (u64 i = 0; i < D.size(); ++i) w[i] = D[i] * X[i], r[i] = g.data()[i] * X[i]; want(o, sh, w, "value"); e.backward(g); want(a.gradient(), sh, r, "gradient"); sym_assert(same_shape(a.shape(), sh), "shape of the variable"); } }
HARNESS(reset) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); V a{arb<T>({9})}; place_holder<tensor<T>> x; auto e = elementwise_product(a, x); auto tx = arb<T>({9}); s.bind(x, tx); s.run(e); e.backward(arb<T>({9})); a.reset(); std::vector<T> z(9, T(0)); want(a.data(), {9}, z, "data"); want(a.gradient(), {9}, z, "gradient"); }
// freezing: order of freezing and building an expression, frozen through the original, a copy, the session or the expression
enum { BEFORE, AFTER, COPY, SESSION, MAKE };
static void freezing(int how, bool regularised) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 3}), tb = arb<T>({2, 3}); auto A = nz(ta), B = snap(tb); T l2 = regularised ? factor() : T(0), lr = factor(); V a{ta, 0, l2}, b{tb}; V c = a; place_holder<tensor<T>> x; if (how == BEFORE) a.trainable(false);
  auto h = elementwise_product(a, x) + b; auto e = sum_reduce(h); if (how == AFTER) a.trainable(false); if (how == COPY) c.trainable(false); if (how == SESSION) s.variables_.at(a.id_).trainable(false);
  if (how == MAKE) { make_trainable(e, false); sym_assert(!b.trainable(), "all variables of the expression frozen"); b.trainable(true); }
  V const &ca = a; sym_assert(!ca.trainable() && b.trainable() && !c.trainable(), "flags"); auto o = sgd{e, 1, lr}; std::vector<T> z(6, T(0));
  for (int k = 0; k < 3; ++k) { auto tx = arb<T>({2, 3}); auto X = snap(tx); s.bind(x, tx); if (k == 2) a.trainable(true); s.run(e); s.run(o);
    for (int i = 0; i < 6; ++i) { B[i] -= lr; if (k == 2) A[i] -= lr * (X[i] + 2 * l2 * A[i]); } want(a.data(), {2, 3}, A, "frozen variable"); want(a.gradient(), {2, 3}, z, "gradient of the frozen variable"); want(b.data(), {2, 3}, B, "trainable variable"); } }
HARNESS(freeze_before) { freezing(BEFORE, false); }
HARNESS(freeze_after) { freezing(AFTER, true); }
HARNESS(freeze_copy) { freezing(COPY, false); }
HARNESS(freeze_session) { freezing(SESSION, true); }
HARNESS(freeze_make) { freezing(MAKE, false); }
HARNESS(frozen_at_birth) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({9}); auto A = snap(ta); V a{ta, factor(), factor(), false}; V b{arb<T>({9})}; auto e = elementwise_product(a, b); s.run(e); auto g = arb<T>({9}); auto G = snap(g); e.backward(g); std::vector<T> z(9, T(0)), r(9); for (int i = 0; i < 9; ++i) r[i] = A[i] * G[i]; want(a.gradient(), {9}, z, "gradient of the frozen variable"); want(b.gradient(), {9}, r, "gradient of the trainable variable"); want(a.data(), {9}, A, "data kept"); }
// frozen in the middle of training with a stateful optimizer
template <typename M> void midway(M mk) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto ta = arb<T>({2, 3}); V a{ta}, b{arb<T>({2, 3})}; place_holder<tensor<T>> x; auto e = sum_reduce(elementwise_product(a + b, x)); auto o = mk(e); for (int k = 0; k < 3; ++k) { if (k == 1) a.trainable(false); auto A = snap(a.data()), B = snap(b.data()); auto tx = arb<T>({2, 3}); s.bind(x, tx); s.run(e); s.run(o); if (k) want(a.data(), {2, 3}, A, "frozen variable"); } }
HARNESS(midway_momentum) { midway([](auto &e) { return sgd{e, 1, T(0.5), T(0.75)}; }); }
HARNESS(midway_nesterov) { midway([](auto &e) { return sgd{e, 1, T(0.5), T(0.75), T(0), true}; }); }
HARNESS(midway_adagrad) { midway([](auto &e) { return adagrad{e, 1, T(0.5)}; }); }
HARNESS(midway_rmsprop) { midway([](auto &e) { return rmsprop{e, 1, T(0.5)}; }); }
HARNESS(midway_adadelta) { midway([](auto &e) { return adadelta{e, 1, T(0.5)}; }); }
HARNESS(midway_adam) { midway([](auto &e) { return adam{e, 1, T(0.5)}; }); }
HARNESS(midway_gd) { midway([](auto &e) { return gradient_descent{e, 1, T(0.5)}; }); }
// models: freezing a model keeps all its parameters
static void randomise() { for (auto &[id, v] : get_default_session<tensor<float>>().variables_) sym_fill(v.data().data(), v.data().size()); }
static std::map<int, std::vector<float>> params() { std::map<int, std::vector<float>> r; for (auto &[id, v] : get_default_session<tensor<float>>().variables_) r[id] = snap(v.data()); return r; }
HARNESS(model_frozen) { learning_phase = 1; auto in = Input({2}); auto l1 = relu(Dense(3)(in)); auto out = Dense(1)(l1); model m{in, out}; randomise(); auto before = params(); auto cm = m.compile(MeanSquaredError(), SGD(2ul, 0.5f)); cm.trainable(false); for (int k = 0; k < 2; ++k) { auto x = arb<float>({2, 2}), y = arb<float>({2, 1}); cm.train_on_batch(x, y); auto now = params(); sym_assert(now.size() == before.size() && now.size() == 4, "number of parameters"); for (auto &[id, v] : before) sym_eq(now[id].data(), v.data(), v.size(), "frozen parameters"); } }
// the first model is frozen, a layer on top of it is trained
HARNESS(transfer) { learning_phase = 1; auto in = Input({2}); auto l1 = relu(Dense(3)(in)); model base{in, l1}; base.trainable(false); auto frozen = params(); auto top = Dense(1)(l1); model m{in, top}; randomise(); auto before = params(); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<float>({1, 2}), y = arb<float>({1, 1}); auto X = snap(x), Y = snap(y);
  cm.train_on_batch(x, y); auto now = params(); for (auto &[id, v] : frozen) sym_eq(now[id].data(), before[id].data(), v.size(), "frozen parameters");
  // ids grow: W1 (2x3), b1 (1x3), W2 (3x1), b2 (1x1)
  std::vector<std::vector<float>> P, N; for (auto &[id, v] : before) P.push_back(v), N.push_back(now[id]); sym_assert(P.size() == 4 && P[0].size() == 6 && P[1].size() == 3 && P[2].size() == 3 && P[3].size() == 1, "parameters"); std::vector<float> h(3); float o = P[3][0]; for (int j = 0; j < 3; ++j) { h[j] = X[0] * P[0][j] + X[1] * P[0][3 + j] + P[1][j]; h[j] = h[j] > 0 ? h[j] : 0.f; o += h[j] * P[2][j]; } float d = 0.5f * 2 * (o - Y[0]); std::vector<float> w(3), b{P[3][0] - d}; for (int j = 0; j < 3; ++j) w[j] = P[2][j] - d * h[j]; sym_eq(N[2].data(), w.data(), 3, "trained weights"); sym_eq(N[3].data(), b.data(), 1, "trained bias"); }
