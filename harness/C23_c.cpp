#include "C23_inc.hpp"
template <class O> static void image(O o, const char *l) { u64 r = sym_choose(1, 5); shp s(r, 1); if (r > 1) s[1] = 4; if (r > 2) s[2] = 4; auto x = V(s); auto e = o(x); bool run = sym_choose(0, 1); gate(r == 4, l, [&] { if (run) S().run(e); else e.shape(); }); }
HARNESS(i_maxpool) { image([](auto &x) { return max_pooling_2d(2)(x); }, "max pooling of a tensor that is no image"); }
HARNESS(i_avgpool) { image([](auto &x) { return average_pooling_2d(2)(x); }, "average pooling of a tensor that is no image"); }
HARNESS(i_upsample) { image([](auto &x) { return up_sampling_2d(2)(x); }, "up-sampling of a tensor that is no image"); }
HARNESS(i_img2col) { image([](auto &x) { return img2col(2)(x); }, "img2col of a tensor that is no image"); }
template <class O> static void image_run(O o, const char *l) { u64 r = sym_choose(1, 5); shp s(r, 1); if (r > 1) s[1] = 4; if (r > 2) s[2] = 4; auto x = V(s); auto e = o(x); gate(r == 4, l, [&] { S().run(e); }); }
HARNESS(i_pad) { image_run([](auto &x) { return zero_padding_2d({1})(x); }, "padding of a tensor that is no image"); }
HARNESS(i_crop) { image_run([](auto &x) { return cropping_2d({1})(x); }, "cropping of a tensor that is no image"); }
HARNESS(i_batchnorm) { learning_phase = 1; u64 r = sym_choose(1, 4); auto x = V(shp(r, 2)); auto e = normalization_batch(0.9)(x); gate(r > 1, "normalisation of a vector", [&] { S().run(e); }); }
HARNESS(i_crop_size) { u64 r = sym_choose(1, 5), c = sym_choose(2, 4), t = sym_choose(1, 3), b = sym_choose(1, 2), l = sym_choose(1, 2), g = 1; auto x = V({1, r, c, 1}); auto e = cropping_2d({t, b, l, g})(x); gate(r > t + b && c > l + g, "cropping more than there is", [&] { TT o = S().run(e); sym_assert(same_shape(o, {1, r - t - b, c - l - g, 1}), "shape"); }); }
HARNESS(i_conv_channels) { u64 c = sym_choose(1, 3), k = sym_choose(1, 3); auto x = V({1, 3, 3, c}), w = V({2, 2, 2, k}); gate(c == k, "a kernel of another number of channels", [&] { auto e = conv2d(3, 3)(x, w); S().run(e); }); }
HARNESS(i_conv_general) { u64 c = sym_choose(1, 3), k = sym_choose(1, 3), r = sym_choose(3, 5); shp s{1, 3, 3, c}; if (r == 3) s = {3, 3, c}; if (r == 5) s.push_back(1); auto x = V(s), w = V({2, 2, 2, k}); gate(r == 4 && c == k, "an image of another rank or number of channels", [&] { auto e = general_conv2d()(x, w); S().run(e); }); }
HARNESS(i_conv_rank) { u64 r = sym_choose(2, 5); auto x = V({1, 3, 3, 1}), w = V(shp(r, 1)); bool g = sym_choose(0, 1); gate(r == 4, "a kernel of another rank", [&] { if (g) { auto e = general_conv2d()(x, w); S().run(e); } else { auto e = conv2d(3, 3)(x, w); S().run(e); } }); }
HARNESS(i_conv_size) { u64 r = sym_choose(1, 4), c = sym_choose(1, 4), k = sym_choose(1, 3), q = sym_choose(1, 3); auto x = V({1, r, c, 1}), w = V({1, k, q, 1}); gate(k <= r && q <= c, "a kernel larger than the image", [&] { auto e = conv2d(r, c)(x, w); TT o = S().run(e); sym_assert(same_shape(o, {1, r - k + 1, c - q + 1, 1}), "shape"); }); }
HARNESS(e_unbound) { place_holder<TT> p; auto e = p + 1.0; bool b = sym_choose(0, 1); if (b) S().bind(p, Z({2})); gate(b, "a placeholder nothing is bound to", [&] { S().run(e); }); }
HARNESS(e_unbound_again) { place_holder<TT> p, q; auto e = p + q; S().bind(p, Z({2})); u64 k = sym_choose(0, 2); if (k) S().bind(q, Z({2})); if (k == 2) q.reset(); gate(k == 1, "a placeholder nothing is bound to", [&] { S().run(e); }); }
// ---- options
HARNESS(o_dropout) { T f; sym_f64(&f, 1); bool ok = (f > 0) & (f < 1); if (sym_choose(0, 1)) { sym_assume(ok); drop_out(f); sym_assert(true, "accepted"); } else { sym_assume(!ok); gate(false, "a rate outside (0, 1)", [&] { drop_out(f); }); } }
HARNESS(o_leaky) { T f; sym_f64(&f, 1); auto x = V({2}); bool ok = (f > 0) & (f < 1); if (sym_choose(0, 1)) { sym_assume(ok); auto e = leaky_relu(f)(x); S().run(e); sym_assert(true, "accepted"); } else { sym_assume(!ok); gate(false, "a slope outside (0, 1)", [&] { leaky_relu(f)(x); }); } }
HARNESS(o_stride) { u64 s = sym_u64(0, -1ul), k = sym_choose(0, 2); bool ok = s > 1; if (!ok) sym_abort(1); if (k == 0) max_pooling_2d(s); else if (k == 1) average_pooling_2d(s); else up_sampling_2d(s); sym_assert(ok, "a stride below two"); }
HARNESS(o_padding) { u64 n = sym_choose(0, 5); bool pad = sym_choose(0, 1); shp p; for (u64 i = 0; i < n; i++) p.push_back(sym_choose(0, 1)); bool ok = n == 1 || n == 2 || n == 4; for (u64 v : p) ok = ok && v; gate(ok, "a padding of nothing or of a wrong number of sides", [&] { if (pad) zero_padding_2d(p); else cropping_2d(p); }); }
HARNESS(o_repeat) { u64 n = sym_u64(0, -1ul); bool ok = n > 0; if (!ok) sym_abort(1); ceras::repeat(n); sym_assert(ok, "no repetition"); }
HARNESS(o_batch) { u64 b = sym_choose(0, 1), k = sym_choose(0, 4); auto x = V({2}); auto l = mean_reduce(square(x)); gate(b > 0, "a batch size of zero", [&] { if (k == 0) { auto o = sgd{l, b, 0.5}; } else if (k == 1) { auto o = adagrad{l, b, 0.5}; } else if (k == 2) { auto o = rmsprop{l, b, 0.5, 0.9}; } else if (k == 3) { auto o = adadelta{l, b, 0.9}; } else { auto o = adam{l, b, 0.5}; } }); }
HARNESS(o_conv) { u64 oc = sym_choose(0, 1), k = sym_choose(0, 2), s = sym_choose(0, 2); shp ks(k, 2), st(s, 1); bool t = sym_choose(0, 1); gate(oc && k && s, "a convolution without channels, kernel or stride", [&] { if (t) Conv2DTranspose(oc, ks, "valid", st); else Conv2D(oc, ks, "valid", st); }); }
HARNESS(o_conv_shape) { u64 oc = sym_choose(0, 1), k = sym_choose(0, 1), s = sym_choose(0, 1), r = sym_choose(2, 4); shp ks(k, 2), st(s, 1), in(r, 3); gate(oc && k && s && r == 3, "a convolution without channels, kernel or stride, or of something that is no image", [&] { Conv2D(oc, ks, in, "valid", st); }); }
// ---- models
HARNESS(m_samples) { typedef tensor<float> TF; u64 n = sym_choose(1, 4), m = sym_choose(1, 4), k = sym_choose(0, 1); sym_term(80); auto in = Input({1}); auto out = Dense(1)(in); model md{in, out}; auto cm = md.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<float>({n, 1}), y = arb<float>({m, 1}); gate(n == m, "more or fewer labels than samples", [&] { if (k) cm.fit(x, y, 1, 1); else cm.evaluate(x, y, 1); }); }
HARNESS(m_batch_size) { u64 k = sym_choose(0, 1), b = sym_choose(0, 1); sym_term(80); auto in = Input({1}); auto out = Dense(1)(in); model md{in, out}; auto cm = md.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<float>({2, 1}), y = arb<float>({2, 1}); gate(b > 0, "batches without samples", [&] { if (k) cm.fit(x, y, b, 1); else cm.evaluate(x, y, b); }); }
HARNESS(m_features) { u64 n = sym_choose(1, 3); auto in = Input({2}); auto out = Dense(1)(in); model md{in, out}; auto x = arb<float>({2, n}); gate(n == 2, "samples with another number of features", [&] { md.predict(x); }); }
HARNESS(m_labels) { u64 n = sym_choose(1, 3), b = sym_choose(1, 3); auto in = Input({2}); auto out = Dense(2)(in); model md{in, out}; auto cm = md.compile(MeanSquaredError(), SGD(1ul, 0.5f)); auto x = arb<float>({2, 2}), y = arb<float>({b, n}); gate(bc({2, 2}, {b, n}), "labels of another shape", [&] { cm.train_on_batch(x, y); }); }
