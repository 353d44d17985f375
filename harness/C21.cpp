// BOUND: layers: Dense on 1 to 4 samples of 1 to 3 features; Conv2D, Conv1D, Conv2DTranspose on one or two 4x4 (1-D: 5) samples of 1 to 2 channels with rectangular kernels, strides, dilations and both paddings; Add, Subtract, Multiply, Concatenate, LeakyReLU, ELU, ReLU, Softmax, Reshape, Flatten, pooling, up-sampling, Dropout and BatchNormalization layers on small samples; all weights, biases, entries and regularisation factors arbitrary
// BOUND: models: a dense network with one hidden layer, batches of 1 to 3 samples, up to 6 samples, 2 epochs, validation splits 0, 1/3, 1/2 and 1; compositions of two models; terminals of 0 to 200 columns or none
// ASSUME: real arithmetic instead of floating point
// OUTSIDE: fewer samples than one batch (the average over no batch is not a number); a model applied twice inside one expression (operators keep their buffers); summary()
// TIME: 200
#include "sym.hpp"
using namespace vh;
typedef float T; typedef tensor<T> TT;
static std::vector<variable<TT>> vars() { std::map<int, variable<TT>> m; for (auto &[id, v] : get_default_session<TT>().variables_) m.insert_or_assign(id, v); std::vector<variable<TT>> r; for (auto &[id, v] : m) r.push_back(v); return r; }
static void randomise() { for (auto &v : vars()) sym_fill(v.data().data(), v.data().size()); }
static std::vector<std::vector<T>> vals() { std::vector<std::vector<T>> r; for (auto &v : vars()) r.push_back(snap(v.data())); return r; }
static void setv(std::vector<std::vector<T>> const &w, u64 from_ = 0) { auto v = vars(); for (u64 i = 0; i < w.size(); i++) { sym_assert(v[from_ + i].data().size() == w[i].size(), "parameters"); for (u64 j = 0; j < w[i].size(); j++) v[from_ + i].data().data()[j] = w[i][j]; } }
// the static shape of an expression agrees with the tensor it produces, except for the number of samples
template <class E> static void shape_ok(E const &e, TT const &o, const char *l) { auto s = e.shape(); auto const &q = o.shape(); bool ok = s.size() == q.size(); for (u64 i = 1; ok && i < s.size(); i++) ok = s[i] == q[i]; sym_assert(ok, l); }
static shp with(u64 n, shp s) { s.insert(s.begin(), n); return s; }
template <class L, class F> static void layer_(shp in, L l, F ref, const char *name) { learning_phase = 1; auto &s = get_default_session<TT>(); auto x = Input(in); auto e = l(x); auto pre = e.shape(); randomise(); auto W = vals();
  for (int k = 0; k < 2; k++) { u64 n = k ? 1 : sym_choose(1, 2); if (k == 0 && n == 1) continue; auto t = arb<T>(with(n, in)); auto X = snap(t); s.bind(x, t); TT o = s.run(e).deep_copy(); auto [os, R] = ref(n, X, W); std::string q = std::string(name) + " shape"; sym_assert(same_shape(o, os), q.c_str()); sym_assert(pre.size() == os.size() && std::equal(pre.begin() + 1, pre.end(), os.begin() + 1), "static shape before anything is bound"); shape_ok(e, o, "static shape"); sym_eq(o.data(), R.data(), R.size(), name); } }
typedef std::pair<shp, std::vector<T>> ans_;
typedef std::vector<std::vector<T>> VV;
// ---- Dense
static ans_ dense_ref(u64 n, u64 in, u64 out, std::vector<T> const &X, std::vector<T> const &w, std::vector<T> const &b) { std::vector<T> r(n * out); for (u64 i = 0; i < n; i++) for (u64 o = 0; o < out; o++) { T s = b[o]; for (u64 k = 0; k < in; k++) s += X[i * in + k] * w[k * out + o]; r[i * out + o] = s; } return {{n, out}, r}; }
HARNESS(dense) { u64 in = sym_choose(1, 3), out = sym_choose(1, 3); layer_({in}, Dense(out), [=](u64 n, auto const &X, VV const &W) { sym_assert(W.size() == 2 && W[0].size() == in * out && W[1].size() == out, "parameters"); return dense_ref(n, in, out, X, W[0], W[1]); }, "x * w + b"); }
HARNESS(dense_stack) { layer_({2}, [](auto x) { return Dense(2)(relu(Dense(3)(x))); }, [=](u64 n, auto const &X, VV const &W) { auto h = dense_ref(n, 2, 3, X, W[0], W[1]).second; for (auto &v : h) v = v > 0 ? v : 0.f; return dense_ref(n, 3, 2, h, W[2], W[3]); }, "two dense layers"); }
HARNESS(dense_after_flatten) { layer_({2, 2, 1}, [](auto x) { return Dense(2)(Flatten()(x)); }, [=](u64 n, auto const &X, VV const &W) { return dense_ref(n, 4, 2, X, W[0], W[1]); }, "dense layer after flatten"); }
HARNESS(dense_batches) { auto &s = get_default_session<TT>(); auto x = Input({2}); auto e = Dense(2)(x); randomise(); auto W = vals(); for (int k = 0; k < 3; k++) { u64 n = sym_choose(1, 4); auto t = arb<T>({n, 2}); auto X = snap(t); s.bind(x, t); TT o = s.run(e).deep_copy(); auto [os, R] = dense_ref(n, 2, 2, X, W[0], W[1]); want(o, os, R, "batches of any size"); } }
HARNESS(dense_init) { Dense(3)(Input({2})); auto v = vars(); sym_assert(v.size() == 2, "parameters"); sym_assert(same_shape(v[0].data(), {2, 3}) && same_shape(v[1].data(), {1, 3}), "parameter shapes"); T z[3] = {0, 0, 0}; sym_eq(v[1].data().data(), z, 3, "the bias starts at zero"); sym_assert(v[0].trainable() && v[1].trainable(), "trainable"); }
// ---- options reach the parameter they belong to
template <class L> static void regs(L l, shp in) { T f[4]; sym_f32(f, 4); bool b = sym_choose(0, 1); l(b, f, Input(in)); auto v = vars(); sym_assert(v.size() == 2, "parameters"); T g[4] = {v[0].l1_regularizer(), v[0].l2_regularizer(), v[1].l1_regularizer(), v[1].l2_regularizer()}; sym_eq(g, f, 4, "regularisation of kernel and bias"); sym_assert(v[0].trainable(), "the kernel is trainable"); sym_assert(v[1].trainable() == b, "the bias is trainable exactly if it is used"); bool zero = true; for (u64 i = 0; i < v[1].data().size(); i++) zero = zero & (v[1].data().data()[i] == 0.f); sym_assert(zero, "the bias starts at zero"); }
HARNESS(regs_dense) { regs([](bool b, T *f, auto x) { return Dense(2, b, f[0], f[1], f[2], f[3])(x); }, {2}); }
HARNESS(regs_conv2d) { regs([](bool b, T *f, auto x) { return Conv2D(2, {2, 2}, "valid", {1, 1}, {1, 1}, b, f[0], f[1], f[2], f[3])(x); }, {3, 3, 1}); }
HARNESS(regs_conv1d) { regs([](bool b, T *f, auto x) { return Conv1D(2, 2, 1, "valid", 1, b, f[0], f[1], f[2], f[3])(x); }, {4, 1}); }
HARNESS(regs_conv2dt) { regs([](bool b, T *f, auto x) { return Conv2DTranspose(2, {2, 2}, "valid", {1, 1}, {1, 1}, b, f[0], f[1], f[2], f[3])(x); }, {2, 2, 1}); }
HARNESS(regs_bn) { T f[4]; sym_f32(f, 4); BatchNormalization(0.9f, f[0], f[1], f[2], f[3])(Input({2})); auto v = vars(); sym_assert(v.size() == 2, "parameters"); T g[4] = {v[0].l1_regularizer(), v[0].l2_regularizer(), v[1].l1_regularizer(), v[1].l2_regularizer()}; sym_eq(g, f, 4, "regularisation of gamma and beta"); T one[2] = {1, 1}, zero[2] = {0, 0}; sym_assert(v[0].data().size() == 2 && v[1].data().size() == 2, "one factor per channel"); sym_eq(v[0].data().data(), one, 2, "gamma starts at one"); sym_eq(v[1].data().data(), zero, 2, "beta starts at zero"); }
HARNESS(unused_bias) { learning_phase = 1; auto in = Input({2}); auto out = Dense(1, false)(in); model m{in, out}; auto v = vars(); sym_fill(v[0].data().data(), 2); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<T>({1, 2}), y = arb<T>({1, 1}); auto w = vals(); T p = x.data()[0] * w[0][0] + x.data()[1] * w[0][1], d = p - y.data()[0]; std::vector<T> W{w[0][0] - d * x.data()[0], w[0][1] - d * x.data()[1]}; cm.train_on_batch(x, y); auto n = vals(); T z = 0; sym_eq(&n[1][0], &z, 1, "an unused bias stays zero"); sym_eq(n[0].data(), W.data(), 2, "the kernel is trained"); }
// ---- convolutional layers
static ans_ conv_ref(u64 n, u64 r, u64 c, u64 ch, u64 oc, u64 kr, u64 kc, u64 sr, u64 sc, u64 dr, u64 dc, bool same, std::vector<T> const &X, std::vector<T> const &w, std::vector<T> const &b) {
  u64 er = (kr - 1) * dr + 1, ec = (kc - 1) * dc + 1; long pt = 0, pl = 0; u64 orow, ocol; if (same) { orow = (r + sr - 1) / sr; ocol = (c + sc - 1) / sc; long pr = std::max<long>(0, (long)((orow - 1) * sr + er) - (long)r), pc_ = std::max<long>(0, (long)((ocol - 1) * sc + ec) - (long)c); pt = pr / 2; pl = pc_ / 2; } else { orow = (r - er) / sr + 1; ocol = (c - ec) / sc + 1; }
  std::vector<T> R(n * orow * ocol * oc); for (u64 i = 0; i < n; i++) for (u64 y = 0; y < orow; y++) for (u64 x = 0; x < ocol; x++) for (u64 o = 0; o < oc; o++) { T s = b[o]; for (u64 p = 0; p < kr; p++) for (u64 q = 0; q < kc; q++) for (u64 k = 0; k < ch; k++) { long yy = (long)(y * sr + p * dr) - pt, xx = (long)(x * sc + q * dc) - pl; if (yy < 0 || xx < 0 || yy >= (long)r || xx >= (long)c) continue; s += X[((i * r + yy) * c + xx) * ch + k] * w[((o * kr + p) * kc + q) * ch + k]; } R[((i * orow + y) * ocol + x) * oc + o] = s; } return {{n, orow, ocol, oc}, R}; }
#define CONV(N, R, C, CH, OC, KR, KC, SR, SC, DR, DC, PAD) HARNESS(N) { layer_({R, C, CH}, Conv2D(OC, {KR, KC}, PAD, {SR, SC}, {DR, DC}), [](u64 n, auto const &X, VV const &W) { sym_assert(W.size() == 2 && W[0].size() == OC * KR * KC * CH && W[1].size() == OC, "parameters"); return conv_ref(n, R, C, CH, OC, KR, KC, SR, SC, DR, DC, std::string(PAD) == "same", X, W[0], W[1]); }, "convolution plus bias"); }
CONV(conv_valid, 4, 3, 2, 2, 2, 3, 1, 1, 1, 1, "valid")
CONV(conv_same, 3, 4, 1, 2, 3, 1, 1, 1, 1, 1, "same")
CONV(conv_stride, 5, 4, 1, 1, 2, 2, 2, 1, 1, 1, "valid")
CONV(conv_dilated, 4, 5, 1, 1, 2, 2, 1, 1, 2, 3, "valid")
HARNESS(conv_square) { layer_({3, 4, 1}, Conv2D(1, {2}, "valid", {2}, {1}), [](u64 n, auto const &X, VV const &W) { return conv_ref(n, 3, 4, 1, 1, 2, 2, 2, 2, 1, 1, false, X, W[0], W[1]); }, "one kernel size and one stride stand for both directions"); }
HARNESS(conv_sized) { layer_({4, 3, 2}, Conv2D(2, std::vector<unsigned long>{2, 3}, std::vector<unsigned long>{4, 3, 2}, "valid"), [](u64 n, auto const &X, VV const &W) { return conv_ref(n, 4, 3, 2, 2, 2, 3, 1, 1, 1, 1, false, X, W[0], W[1]); }, "convolution plus bias"); }
HARNESS(conv_sized_dilated) { layer_({5, 4, 1}, Conv2D(1, std::vector<unsigned long>{2, 2}, std::vector<unsigned long>{5, 4, 1}, "valid", {2, 1}, {2, 3}), [](u64 n, auto const &X, VV const &W) { return conv_ref(n, 5, 4, 1, 1, 2, 2, 2, 1, 2, 3, false, X, W[0], W[1]); }, "convolution plus bias"); }
HARNESS(conv_sized_square) { layer_({5, 4, 1}, Conv2D(1, std::vector<unsigned long>{2}, std::vector<unsigned long>{5, 4, 1}, "valid", {2}, {2}), [](u64 n, auto const &X, VV const &W) { return conv_ref(n, 5, 4, 1, 1, 2, 2, 2, 2, 2, 2, false, X, W[0], W[1]); }, "one kernel size, stride and dilation stand for both directions"); }
HARNESS(conv_sized_same) { layer_({3, 4, 1}, Conv2D(1, std::vector<unsigned long>{3, 1}, std::vector<unsigned long>{3, 4, 1}, "same"), [](u64 n, auto const &X, VV const &W) { return conv_ref(n, 3, 4, 1, 1, 3, 1, 1, 1, 1, 1, true, X, W[0], W[1]); }, "convolution plus bias"); }
HARNESS(conv_square_dilated) { layer_({4, 5, 1}, Conv2D(1, {2}, "valid", {1}, {2}), [](u64 n, auto const &X, VV const &W) { return conv_ref(n, 4, 5, 1, 1, 2, 2, 1, 1, 2, 2, false, X, W[0], W[1]); }, "one dilation stands for both directions"); }
HARNESS(conv1d_dilated) { layer_({5, 1}, Conv1D(1, 2, 1, "valid", 3), [=](u64 n, auto const &X, VV const &W) { auto [s, r] = conv_ref(n, 5, 1, 1, 1, 2, 1, 1, 1, 3, 1, false, X, W[0], W[1]); return ans_{{n, s[1], 1}, r}; }, "one-dimensional convolution"); }
// transposed convolution, no padding: every entry spreads the kernel over the output, strides apart
static ans_ convt_ref(u64 n, u64 r, u64 c, u64 ch, u64 oc, u64 kr, u64 kc, u64 sr, u64 sc, std::vector<T> const &X, std::vector<T> const &w, std::vector<T> const &b) { u64 R = r * sr + kr - 1, C = c * sc + kc - 1; std::vector<T> o(n * R * C * oc); for (u64 i = 0; i < o.size(); i++) o[i] = b[i % oc]; for (u64 i = 0; i < n; i++) for (u64 y = 0; y < r; y++) for (u64 x = 0; x < c; x++) for (u64 k = 0; k < ch; k++) for (u64 p = 0; p < kr; p++) for (u64 q = 0; q < kc; q++) for (u64 f = 0; f < oc; f++) o[((i * R + y * sr + p) * C + x * sc + q) * oc + f] += X[((i * r + y) * c + x) * ch + k] * w[((f * kr + p) * kc + q) * ch + k]; return {{n, R, C, oc}, o}; }
HARNESS(convt) { layer_({2, 3, 2}, Conv2DTranspose(2, {2, 3}), [](u64 n, auto const &X, VV const &W) { return convt_ref(n, 2, 3, 2, 2, 2, 3, 1, 1, X, W[0], W[1]); }, "transposed convolution plus bias"); }
HARNESS(convt_stride) { layer_({2, 2, 1}, Conv2DTranspose(1, {3, 2}, "valid", {2, 3}), [](u64 n, auto const &X, VV const &W) { return convt_ref(n, 2, 2, 1, 1, 3, 2, 2, 3, X, W[0], W[1]); }, "transposed convolution plus bias"); }
HARNESS(convt_square) { layer_({2, 2, 1}, Conv2DTranspose(1, {2}, "valid", {2}, {1}), [](u64 n, auto const &X, VV const &W) { return convt_ref(n, 2, 2, 1, 1, 2, 2, 2, 2, X, W[0], W[1]); }, "one kernel size and one stride stand for both directions"); }
HARNESS(conv_twice) { layer_({4, 4, 1}, [](auto x) { return Conv2D(1, {2, 2})(Conv2D(2, {2, 2})(x)); }, [](u64 n, auto const &X, VV const &W) { auto [s, h] = conv_ref(n, 4, 4, 1, 2, 2, 2, 1, 1, 1, 1, false, X, W[0], W[1]); return conv_ref(n, 3, 3, 2, 1, 2, 2, 1, 1, 1, 1, false, h, W[2], W[3]); }, "two convolutions"); }
HARNESS(conv1d) { u64 st = sym_choose(1, 2); layer_({5, 2}, Conv1D(2, 2, st), [=](u64 n, auto const &X, VV const &W) { auto [s, r] = conv_ref(n, 5, 1, 2, 2, 2, 1, st, 1, 1, 1, false, X, W[0], W[1]); return ans_{{n, s[1], 2}, r}; }, "one-dimensional convolution"); }
HARNESS(conv1d_same) { layer_({5, 1}, Conv1D(2, 3, 1, "same"), [=](u64 n, auto const &X, VV const &W) { auto [s, r] = conv_ref(n, 5, 1, 1, 2, 3, 1, 1, 1, 1, 1, true, X, W[0], W[1]); return ans_{{n, s[1], 2}, r}; }, "one-dimensional convolution"); }
// ---- other layers
static auto per(u64 n, u64 k, std::vector<T> const &X, auto f) { std::vector<T> r; for (u64 i = 0; i < n * k; i++) r.push_back(f(X[i])); return r; }
HARNESS(act_leaky) { layer_({3}, LeakyReLU(), [](u64 n, auto const &X, VV const &) { return ans_{{n, 3}, per(n, 3, X, [](T v) { return v > 0 ? v : 0.2f * v; })}; }, "leaky relu, factor 0.2"); }
HARNESS(act_elu) { layer_({3}, ELU(), [](u64 n, auto const &X, VV const &) { return ans_{{n, 3}, per(n, 3, X, [](T v) { return v > 0 ? v : 0.2f * (std::exp(v) - 1); })}; }, "elu, factor 0.2"); }
HARNESS(act_relu) { layer_({3}, [](auto x) { return ReLU(x); }, [](u64 n, auto const &X, VV const &) { return ans_{{n, 3}, per(n, 3, X, [](T v) { return v > 0 ? v : 0.f; })}; }, "relu"); }
HARNESS(act_softmax) { layer_({2}, Softmax(), [](u64 n, auto const &X, VV const &) { std::vector<T> r; for (u64 i = 0; i < n; i++) { T a = X[2 * i], b = X[2 * i + 1]; r.push_back(1 / (1 + std::exp(b - a))); r.push_back(1 / (1 + std::exp(a - b))); } return ans_{{n, 2}, r}; }, "softmax"); }
HARNESS(reshaped) { layer_({2, 3}, Reshape({3, 2}), [](u64 n, auto const &X, VV const &) { return ans_{{n, 3, 2}, X}; }, "reshape"); }
HARNESS(flattened) { layer_({2, 1, 2}, Flatten(), [](u64 n, auto const &X, VV const &) { return ans_{{n, 4}, X}; }, "flatten"); }
HARNESS(maxpooled) { layer_({2, 4, 1}, MaxPooling2D(2), [](u64 n, auto const &X, VV const &) { std::vector<T> r; for (u64 i = 0; i < n; i++) for (u64 c = 0; c < 2; c++) { auto *p = &X[i * 8 + 2 * c]; r.push_back(std::max(std::max(p[0], p[1]), std::max(p[4], p[5]))); } return ans_{{n, 1, 2, 1}, r}; }, "max pooling"); }
HARNESS(avgpooled) { layer_({2, 4, 1}, AveragePooling2D(2), [](u64 n, auto const &X, VV const &) { std::vector<T> r; for (u64 i = 0; i < n; i++) for (u64 c = 0; c < 2; c++) { auto *p = &X[i * 8 + 2 * c]; r.push_back((p[0] + p[1] + p[4] + p[5]) / 4); } return ans_{{n, 1, 2, 1}, r}; }, "average pooling"); }
HARNESS(upsampled) { layer_({1, 2, 1}, UpSampling2D(2), [](u64 n, auto const &X, VV const &) { std::vector<T> r; for (u64 i = 0; i < n; i++) for (int k = 0; k < 2; k++) for (u64 c = 0; c < 4; c++) r.push_back(X[i * 2 + c / 2]); return ans_{{n, 2, 4, 1}, r}; }, "up-sampling"); }
template <class L> static void two(L l, auto f, bool cat) { auto &s = get_default_session<TT>(); auto x = Input({3}), y = Input({3}); auto e = l(x, y); auto pre = e.shape(); for (int k = 0; k < 2; k++) { u64 n = k + 1; auto a = arb<T>({n, 3}), b = arb<T>({n, 3}); auto A = snap(a), Bb = snap(b); s.bind(x, a); s.bind(y, b); TT o = s.run(e).deep_copy(); std::vector<T> r; for (u64 i = 0; i < n; i++) { for (u64 j = 0; j < 3; j++) r.push_back(cat ? A[i * 3 + j] : f(A[i * 3 + j], Bb[i * 3 + j])); if (cat) for (u64 j = 0; j < 3; j++) r.push_back(Bb[i * 3 + j]); } want(o, {n, cat ? 6ul : 3ul}, r, "value"); sym_assert(pre.size() == 2 && pre[1] == (cat ? 6ul : 3ul), "static shape"); } }
HARNESS(merge_add) { two(Add(), [](T a, T b) { return a + b; }, false); }
HARNESS(merge_sub) { two(Subtract(), [](T a, T b) { return a - b; }, false); }
HARNESS(merge_mul) { two(Multiply(), [](T a, T b) { return a * b; }, false); }
HARNESS(merge_cat) { two(Concatenate(), [](T a, T) { return a; }, true); }
HARNESS(merge_cat1) { two(Concatenate(1), [](T a, T) { return a; }, true); }
// ---- models
static std::vector<T> net(u64 n, std::vector<T> const &X, VV const &W, u64 o = 0) { auto h = dense_ref(n, 2, 2, X, W[o], W[o + 1]).second; for (auto &v : h) v = v > 0 ? v : 0.f; return dense_ref(n, 2, 1, h, W[o + 2], W[o + 3]).second; }
static auto build(auto in) { return Dense(1)(relu(Dense(2)(in))); }
HARNESS(predict) { auto in = Input({2}); auto out = build(in); model m{in, out}; randomise(); auto W = vals(); for (int k = 0; k < 2; k++) { u64 n = sym_choose(1, 3); auto x = arb<T>({n, 2}); auto X = snap(x); TT o = m.predict(x); auto r = net(n, X, W); want(o, {n, 1}, r, "prediction"); sym_assert(learning_phase == 1, "training phase afterwards"); sym_eq(x.data(), X.data(), X.size(), "the samples are kept"); } auto w = vals(); for (u64 i = 0; i < W.size(); i++) sym_eq(w[i].data(), W[i].data(), W[i].size(), "predicting changes no weight"); }
HARNESS(predict_dropout) { auto in = Input({2}); auto out = Dense(1)(Dropout(0.5f)(in)); model m{in, out}; randomise(); auto W = vals(); auto x = arb<T>({2, 2}); auto X = snap(x); TT o = m.predict(x); auto [s, r] = dense_ref(2, 2, 1, X, W[0], W[1]); want(o, s, r, "nothing is dropped while predicting"); sym_assert(learning_phase == 1, "training phase afterwards"); }
HARNESS(predict_compiled) { auto in = Input({2}); auto out = build(in); model m{in, out}; randomise(); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); for (int k = 0; k < 2; k++) { auto x = arb<T>({1, 2}), y = arb<T>({1, 1}); if (k) cm.train_on_batch(x, y); auto W = vals(); auto p = arb<T>({2, 2}); auto P = snap(p); TT o = cm.predict(p), o2 = o.deep_copy(), q = m.predict(p); auto r = net(2, P, W); want(o2, {2, 1}, r, "prediction of the compiled model uses the current weights"); want(q, {2, 1}, r, "prediction of the model uses the current weights"); } }
static T mse(std::vector<T> const &p, std::vector<T> const &y, u64 from_, u64 n) { T s = 0; for (u64 i = 0; i < n; i++) s += (p[i] - y[from_ + i]) * (p[i] - y[from_ + i]); return s / n; }
HARNESS(evaluate) { sym_term((int)(sym_choose(0, 3) * 60) - 60 + 15); auto in = Input({2}); auto out = Dense(1)(in); model m{in, out}; randomise(); auto W = vals(); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); u64 bs = sym_choose(1, 3), n = 5; auto x = arb<T>({n, 2}), y = arb<T>({n, 1}); auto X = snap(x), Y = snap(y); T e = cm.evaluate(x, y, bs); auto p = dense_ref(n, 2, 1, X, W[0], W[1]).second; T r = 0; u64 loops = n / bs; for (u64 l = 0; l < loops; l++) r += mse(std::vector<T>(p.begin() + l * bs, p.begin() + (l + 1) * bs), Y, l * bs, bs); r /= loops; sym_eq(&e, &r, 1, "average loss over the batches"); sym_assert(learning_phase == 1, "training phase afterwards"); auto w = vals(); for (u64 i = 0; i < W.size(); i++) sym_eq(w[i].data(), W[i].data(), W[i].size(), "evaluating changes no weight"); sym_eq(x.data(), X.data(), X.size(), "the samples are kept"); sym_eq(y.data(), Y.data(), Y.size(), "the labels are kept"); }
// fit: the batches in order, a step after each training batch, none after a validation batch. One linear neuron, recomputed by hand.
static void fit_(u64 n, u64 bs, u64 epochs, double split, u64 train) { sym_term(80); auto in = Input({1}); auto out = Dense(1)(in); model m{in, out}; randomise(); auto W = vals(); T w = W[0][0], b = W[1][0]; auto cm = m.compile(MeanSquaredError(), SGD(bs, 0.5f)); auto x = arb<T>({n, 1}), y = arb<T>({n, 1}); auto X = snap(x), Y = snap(y); auto [te, ve] = cm.fit(x, y, bs, epochs, 0, split); u64 loops = n / bs; sym_assert(te.size() == epochs && ve.size() == epochs, "one error per epoch");
  for (u64 e = 0; e < epochs; e++) { T tr = 0, va = 0; for (u64 l = 0; l < loops; l++) { T s = 0, gw = 0, gb = 0; for (u64 i = l * bs; i < (l + 1) * bs; i++) { T d = X[i] * w + b - Y[i]; s += d * d; gw += 2 * d * X[i]; gb += 2 * d; } s /= bs; if (l < train) { tr += s; w -= 0.5f * gw / bs / bs; b -= 0.5f * gb / bs / bs; } else va += s; } if (train) { tr /= train; sym_eq(&te[e], &tr, 1, "training error of the epoch"); } if (train < loops) { va /= (loops - train); sym_eq(&ve[e], &va, 1, "validation error of the epoch"); } }
  auto v = vals(); sym_eq(&v[0][0], &w, 1, "weight after fitting"); sym_eq(&v[1][0], &b, 1, "bias after fitting"); sym_eq(x.data(), X.data(), n, "the samples are kept"); sym_eq(y.data(), Y.data(), n, "the labels are kept"); }
HARNESS(fit_1) { fit_(2, 1, 1, 0.0, 2); }
HARNESS(fit_2) { fit_(4, 2, 1, 0.0, 2); }
HARNESS(fit_split) { fit_(4, 2, 1, 0.5, 1); }
HARNESS(fit_third) { fit_(3, 1, 1, 1.0 / 3, 2); }
HARNESS(fit_none) { fit_(3, 1, 1, 1.0, 0); }
HARNESS(fit_rest) { fit_(5, 2, 1, 0.5, 1); }
HARNESS(fit_epochs) { fit_(2, 2, 2, 0.0, 1); }
HARNESS(fit_terminal) { sym_term((int)sym_choose(0, 5) * 20 - 20); auto in = Input({1}); auto out = Dense(1)(in); model m{in, out}; randomise(); auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<T>({1, 1}), y = arb<T>({1, 1}); auto W = vals(); T d = x.data()[0] * W[0][0] + W[1][0] - y.data()[0]; T w = W[0][0] - d * x.data()[0]; cm.fit(x, y, 1, 1, (int)sym_choose(0, 1)); auto v = vals(); sym_eq(&v[0][0], &w, 1, "the terminal does not matter"); }
HARNESS(train_on_batch) { auto in = Input({1}); auto out = Dense(1)(in); model m{in, out}; randomise(); auto W = vals(); T w = W[0][0], b = W[1][0]; auto cm = m.compile(MeanSquaredError(), SGD(1ul, 0.5f)); for (int k = 0; k < 2; k++) { u64 n = sym_choose(1, 2); auto x = arb<T>({n, 1}), y = arb<T>({n, 1}); T e = cm.train_on_batch(x, y), s = 0, gw = 0, gb = 0; for (u64 i = 0; i < n; i++) { T d = x.data()[i] * w + b - y.data()[i]; s += d * d; gw += 2 * d * x.data()[i] / n; gb += 2 * d / n; } s /= n; sym_eq(&e, &s, 1, "loss before the step"); w -= 0.5f * gw; b -= 0.5f * gb; auto v = vals(); sym_eq(&v[0][0], &w, 1, "weight after the step"); sym_eq(&v[1][0], &b, 1, "bias after the step"); } }
// ---- composition
HARNESS(compose) { auto gi = Input({2}); auto go = Dense(2)(gi); model g{gi, go}; auto di = Input({2}); auto dout = build(di); model d{di, dout}; randomise(); auto W = vals(); auto e = d(g.output()); model gan{gi, e}; for (int k = 0; k < 2; k++) { u64 n = sym_choose(1, 2); auto x = arb<T>({n, 2}); auto X = snap(x); auto h = dense_ref(n, 2, 2, X, W[0], W[1]).second; auto r = net(n, h, W, 2); TT o = gan.predict(x).deep_copy(); want(o, {n, 1}, r, "model applied to an expression"); TT gh = g.predict(x).deep_copy(); want(gh, {n, 2}, h, "inner model on its own"); TT q = d.predict(gh); want(q, {n, 1}, r, "outer model on its own"); shape_ok(e, o, "static shape"); } sym_assert(vars().size() == 6, "composition adds no parameters"); }
HARNESS(compose_unary) { auto di = Input({2}); auto dout = relu(leaky_relu(0.1f)(di)); model d{di, dout}; auto in = Input({2}); auto e = d(negative(in)); model m{in, e}; auto x = arb<T>({2, 2}); auto X = snap(x); std::vector<T> r; for (auto v : X) r.push_back(-v > 0 ? -v : 0.f); TT o = m.predict(x); want(o, {2, 2}, r, "model of unary operators applied to an expression"); }
HARNESS(compose_train) { learning_phase = 1; auto gi = Input({1}); auto go = Dense(1)(gi); model g{gi, go}; auto di = Input({1}); auto dout = Dense(1)(di); model d{di, dout}; randomise(); auto W = vals(); T gw = W[0][0], gb = W[1][0], dw = W[2][0], db = W[3][0]; bool freeze = sym_choose(0, 1); if (freeze) d.trainable(false); auto e = d(g.output()); model gan{gi, e}; auto cm = gan.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<T>({1, 1}), y = arb<T>({1, 1}); T X = x.data()[0], h = gw * X + gb, q = dw * h + db - y.data()[0]; cm.train_on_batch(x, y); auto v = vals(); T n[4] = {gw - q * dw * X, gb - q * dw, freeze ? dw : dw - q * h, freeze ? db : db - q}; T now[4] = {v[0][0], v[1][0], v[2][0], v[3][0]}; sym_eq(now, n, 4, "weights are shared with the composed model"); TT o = d.predict(from<T>({1, 1}, {1.0f})); T r = n[2] + n[3]; sym_eq(o.data(), &r, 1, "the outer model sees the new weights"); }
HARNESS(compose_compiled) { auto gi = Input({1}); auto go = Dense(1)(gi); auto di = Input({1}); auto dout = Dense(1)(di); model d{di, dout}; randomise(); auto W = vals(); auto cd = d.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto e = cd(go); model gan{gi, e}; cd.trainable(false); for (auto &v : vars()) (void)v; auto x = arb<T>({1, 1}); T r = (x.data()[0] * W[0][0] + W[1][0]) * W[2][0] + W[3][0]; TT o = gan.predict(x); sym_eq(o.data(), &r, 1, "compiled model applied to an expression"); auto v = vars(); sym_assert(v[0].trainable() && v[1].trainable() && !v[2].trainable() && !v[3].trainable(), "freezing a compiled model freezes its own parameters"); }
