#include "C08_inc.hpp"
CV(same_33, geo{3, 3, 1, 1, 1, 1, true}, {1, 2, 3, 1}, 1)
CV(same_33_ch, geo{3, 3, 1, 1, 1, 1, true}, {1, 2, 2, 2}, 1, {1})
CV(same_31, geo{3, 1, 1, 1, 1, 1, true}, {1, 3, 2, 1}, 2)
CV(same_13, geo{1, 3, 1, 1, 1, 1, true}, {1, 2, 3, 1}, 1)
CV(same_dilation, geo{3, 3, 1, 1, 2, 2, true}, {1, 3, 3, 1}, 1, {1})
CV(same_dilation_12, geo{3, 3, 1, 1, 1, 2, true}, {1, 3, 2, 1}, 1, {1})
CV(same_55, geo{5, 1, 1, 1, 1, 1, true}, {1, 4, 2, 1}, 1)
// strides with same padding (general_conv2d accepts them for odd kernels)
HARNESS(same_stride) { geo g{3, 3, 2, 2, 1, 1, true}; u64 h = sym_choose(3, 5); conv([=](auto const &x, auto const &w) { return general_conv2d(2, 2, 1, 1, "same")(x, w); }, g, {1, h, 4, 1}, 1, {1, 2}); }
HARNESS(same_stride_12) { geo g{3, 3, 1, 2, 1, 1, true}; conv([=](auto const &x, auto const &w) { return general_conv2d(1, 2, 1, 1, "same")(x, w); }, g, {1, 2, 5, 1}, 1, {1}); }
HARNESS(defaults) { geo g{2, 2}; if (sym_choose(0, 1)) conv([=](auto const &x, auto const &w) { return conv2d(3, 3)(x, w); }, g, {1, 3, 3, 1}, 1, {2}); else conv([=](auto const &x, auto const &w) { return general_conv2d()(x, w); }, g, {1, 3, 3, 1}, 1, {2}); }
// img2col: columns in the order (row of the kernel, column of the kernel, channel), images in the order of the batch
static refmap i2c(shp is, u64 kr, u64 kc, u64 pr, u64 pc, u64 sr, u64 sc, u64 dr, u64 dc) { u64 OH = (is[1] + 2 * pr - (dr * (kr - 1) + 1)) / sr + 1, OW = (is[2] + 2 * pc - (dc * (kc - 1) + 1)) / sc + 1; return rmap({kr * kc * is[3], is[0] * OH * OW}, [=](std::vector<u64> c) -> long { u64 ch = c[0] % is[3], q = c[0] / is[3], kx = q % kc, ky = q / kc, ox = c[1] % OW, oy = c[1] / OW % OH, b = c[1] / OW / OH; long y = long(oy * sr + ky * dr) - long(pr), x = long(ox * sc + kx * dc) - long(pc); if (y < 0 || y >= long(is[1]) || x < 0 || x >= long(is[2])) return -1; return ((b * is[1] + y) * is[2] + x) * is[3] + ch; }); }
HARNESS(img2col) { mover<T>("img2col", img2col(2, 2), [](shp is) { return i2c(is, 2, 2, 0, 0, 1, 1, 1, 1); }, {{1, 3, 4, 1}, {2, 2, 3, 1}, {1, 2, 3, 2}}); }
HARNESS(img2col_same_count) { mover<T>("img2col", img2col(2), [](shp is) { return i2c(is, 2, 2, 0, 0, 1, 1, 1, 1); }, {{1, 3, 4, 1}, {1, 4, 3, 1}, {3, 2, 3, 1}, {1, 2, 4, 2}}); }
HARNESS(img2col_pad) { mover<T>("img2col", img2col(2, 3, 1, 2), [](shp is) { return i2c(is, 2, 3, 1, 2, 1, 1, 1, 1); }, {{1, 2, 2, 1}, {2, 1, 2, 1}}); }
HARNESS(img2col_stride) { mover<T>("img2col", img2col(2, 1, 0, 1, 2, 2, 1, 1), [](shp is) { return i2c(is, 2, 1, 0, 1, 2, 2, 1, 1); }, {{1, 5, 3, 1}, {1, 4, 4, 2}}); }
HARNESS(img2col_dilation) { mover<T>("img2col", img2col(2, 2, 0, 0, 1, 1, 2, 3), [](shp is) { return i2c(is, 2, 2, 0, 0, 1, 1, 2, 3); }, {{1, 4, 4, 1}, {2, 3, 5, 1}}); }
HARNESS(img2col_twice) { twice<T>("img2col", img2col(2, 2), [](shp is) { return i2c(is, 2, 2, 0, 0, 1, 1, 1, 1); }, {1, 3, 2, 1}); }
// one convolution functor applied to two different images
HARNESS(conv_two_inputs) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); geo g{2, 2}; shp xs{1, 2, 3, 1}, ws{1, 2, 2, 1}; auto w = arb<T>(ws), x = arb<T>(xs), y = arb<T>(xs); variable<tensor<T>> vw{w}; auto X = snap(x), Y = snap(y), W = snap(w); place_holder<tensor<T>> p, q; s.bind(p, x); s.bind(q, y); auto f = conv2d(2, 3); auto e = f(p, vw) + f(q, vw); tensor<T> o = s.run(e); auto a = ref(X, xs, W, ws, g, nullptr), b = ref(Y, xs, W, ws, g, nullptr); for (u64 i = 0; i < a.o.size(); ++i) a.o[i] += b.o[i]; want(o, a.os, a.o, "value"); std::vector<T> G(a.o.size()); fin(G); e.backward(from<T>(a.os, G)); auto c = ref(X, xs, W, ws, g, &G), d = ref(Y, xs, W, ws, g, &G); for (u64 i = 0; i < c.dw.size(); ++i) c.dw[i] += d.dw[i]; sym_eq(vw.gradient().data(), c.dw.data(), c.dw.size(), "gradient of the shared kernel"); }
