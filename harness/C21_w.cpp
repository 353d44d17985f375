// BOUND: Dense(17) on 20 features, two dense layers on 40 samples, a training step on 33; a model fitted on 12 samples of 3 features in batches of 4; convolution of 3 samples of 9x10 with 3 kernels; forty predictions in a row
#include "sym.hpp"
using namespace vh;
typedef float T; typedef tensor<T> TT;
static std::vector<variable<TT>> vars() { std::map<int, variable<TT>> m; for (auto &[id, v] : get_default_session<TT>().variables_) m.insert_or_assign(id, v); std::vector<variable<TT>> r; for (auto &[id, v] : m) r.push_back(v); return r; }
static void randomise() { for (auto &v : vars()) sym_fill(v.data().data(), v.data().size()); }
static std::vector<std::vector<T>> vals() { std::vector<std::vector<T>> r; for (auto &v : vars()) r.push_back(snap(v.data())); return r; }
static std::vector<T> dense(u64 n, u64 in, u64 out, std::vector<T> const &X, std::vector<T> const &w, std::vector<T> const &b) { std::vector<T> r; for (u64 i = 0; i < n; i++) for (u64 o = 0; o < out; o++) { T s = b[o]; for (u64 k = 0; k < in; k++) s += X[i * in + k] * w[k * out + o]; r.push_back(s); } return r; }
HARNESS(wide_dense) { auto x = Input({20}); auto e = Dense(17)(x); model m{x, e}; randomise(); auto W = vals(); for (u64 n : {1, 12, 3}) { auto t = arb<T>({n, 20}); auto X = snap(t); TT o = m.predict(t); want(o, {n, 17}, dense(n, 20, 17, X, W[0], W[1]), "x * w + b"); want(t, {n, 20}, X, "samples kept"); } }
HARNESS(wide_batch) { auto x = Input({3}); auto h = Dense(5)(x); auto e = Dense(2)(h); model m{x, e}; randomise(); auto W = vals(); for (u64 n : {40, 1}) { auto t = arb<T>({n, 3}); auto X = snap(t); TT o = m.predict(t); want(o, {n, 2}, dense(n, 5, 2, dense(n, 3, 5, X, W[0], W[1]), W[2], W[3]), "two layers"); } }
HARNESS(wide_train) { auto in = Input({3}); auto out = Dense(1)(in); model m{in, out}; randomise(); auto W = vals(); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); u64 n = 33; auto x = arb<T>({n, 3}), y = arb<T>({n, 1}); auto X = snap(x), Y = snap(y), P = dense(n, 3, 1, X, W[0], W[1]); T e = cm.train_on_batch(x, y), s = 0, gb = 0; std::vector<T> gw(3, 0.f); for (u64 i = 0; i < n; i++) { T d = P[i] - Y[i]; s += d * d; gb += d; for (u64 k = 0; k < 3; k++) gw[k] += d * X[i * 3 + k]; } s /= n; sym_eq(&e, &s, 1, "loss before the step"); auto v = vals(); for (u64 k = 0; k < 3; k++) gw[k] = W[0][k] - gw[k] / n; gb = W[1][0] - gb / n; sym_eq(v[0].data(), gw.data(), 3, "weights after the step"); sym_eq(&v[1][0], &gb, 1, "bias after the step"); }
HARNESS(wide_fit) { sym_term(80); auto in = Input({3}); auto out = Dense(1)(in); model m{in, out}; randomise(); auto W = vals(); auto w = W[0]; T b = W[1][0]; u64 n = 12, bs = 6; auto cm = m.compile(MeanSquaredError(), SGD(bs, 0.5f)); auto x = arb<T>({n, 3}), y = arb<T>({n, 1}); auto X = snap(x), Y = snap(y); cm.fit(x, y, bs, 1, 0, 0.0); for (u64 l = 0; l < n / bs; l++) { std::vector<T> g(3, 0.f); T gb = 0; for (u64 i = l * bs; i < (l + 1) * bs; i++) { T d = b - Y[i]; for (int k = 0; k < 3; k++) d += X[i * 3 + k] * w[k]; gb += 2 * d; for (int k = 0; k < 3; k++) g[k] += 2 * d * X[i * 3 + k]; } for (int k = 0; k < 3; k++) w[k] -= 0.5f * g[k] / bs / bs; b -= 0.5f * gb / bs / bs; } auto v = vals(); sym_eq(v[0].data(), w.data(), 3, "weights after fitting"); sym_eq(&v[1][0], &b, 1, "bias after fitting"); want(x, {n, 3}, X, "samples kept"); }
HARNESS(wide_conv) { auto x = Input({9, 10, 2}); auto e = Conv2D(3, {3, 2}, "valid")(x); model m{x, e}; randomise(); auto W = vals(); auto t = arb<T>({2, 9, 10, 2}); auto X = snap(t); TT o = m.predict(t); std::vector<T> r; sym_assert(W.size() == 2 && W[0].size() == 36 && W[1].size() == 3, "parameters"); for (u64 n = 0; n < 2; n++) for (u64 i = 0; i < 7; i++) for (u64 j = 0; j < 9; j++) for (u64 c = 0; c < 3; c++) { T s = W[1][c]; for (u64 a = 0; a < 3; a++) for (u64 b = 0; b < 2; b++) for (u64 k = 0; k < 2; k++) s += X[((n * 9 + i + a) * 10 + j + b) * 2 + k] * W[0][((c * 3 + a) * 2 + b) * 2 + k]; r.push_back(s); } want(o, {2, 7, 9, 3}, r, "convolution"); }
HARNESS(long_use) { auto x = Input({2}); auto e = Dense(1)(x); model m{x, e}; randomise(); auto W = vals(); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); for (u64 k = 0; k < 40; k++) { u64 n = k * k % 5 + 1; auto t = arb<T>({n, 2}); auto X = snap(t); TT o = m.predict(t).deep_copy(); want(o, {n, 1}, dense(n, 2, 1, X, W[0], W[1]), "prediction after many"); if (k % 4 == 3) { auto y = arb<T>({n, 1}); auto Y = snap(y); T v = cm.evaluate(t, y, n), r = 0; auto P = dense(n, 2, 1, X, W[0], W[1]); for (u64 i = 0; i < n; i++) r += (P[i] - Y[i]) * (P[i] - Y[i]); r /= n; sym_eq(&v, &r, 1, "error after many"); } } auto w = vals(); sym_eq(w[0].data(), W[0].data(), 2, "weights kept"); }
