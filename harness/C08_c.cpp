#include "C08_inc.hpp"
// transposed convolution: out[i] = sum over j of in[j] * kernel[i - j * stride] (valid), cropped for same padding
static cres tref(std::vector<T> const &X, shp xs, std::vector<T> const &W, shp ws, u64 sr, u64 sc, bool same, std::vector<T> const *G) {
  u64 kr = ws[1], kc = ws[2], pr = same ? (kr - 1) / 2 : 0, pc = same ? (kc - 1) / 2 : 0; cres R; u64 OH = xs[1] * sr + (same ? 0 : kr - 1), OW = xs[2] * sc + (same ? 0 : kc - 1); R.os = {xs[0], OH, OW, ws[0]}; R.o.assign(prod(R.os), 0); R.dx.assign(X.size(), 0); R.dw.assign(W.size(), 0); u64 k = 0;
  for (u64 b = 0; b < xs[0]; ++b) for (u64 i = 0; i < OH; ++i) for (u64 j = 0; j < OW; ++j) for (u64 n = 0; n < ws[0]; ++n, ++k) for (u64 y = 0; y < xs[1]; ++y) for (u64 x = 0; x < xs[2]; ++x) { long r = long(i + pr) - long(y * sr), c = long(j + pc) - long(x * sc); if (r < 0 || r >= long(kr) || c < 0 || c >= long(kc)) continue;
    for (u64 ch = 0; ch < xs[3]; ++ch) { u64 xi = ((b * xs[1] + y) * xs[2] + x) * xs[3] + ch, wi = ((n * kr + r) * kc + c) * xs[3] + ch; R.o[k] += X[xi] * W[wi]; if (G) { R.dx[xi] += (*G)[k] * W[wi]; R.dw[wi] += (*G)[k] * X[xi]; } } }
  return R; }
static void tconv(shp xs, shp ws, u64 sr, u64 sc, bool same, std::vector<u64> batches = {1, 2}) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); auto w = arb<T>(ws); auto W = snap(w); variable<tensor<T>> vw{w}; place_holder<tensor<T>> p; s.bind(p, arb<T>(xs)); rec<T> rx, rw; auto e = conv2d_transpose(ws[1], ws[2], sr, sc, 1, 1, same ? "same" : "valid")(probe(rx, p), probe(rw, vw));
  for (u64 b : batches) { xs[0] = b; auto x = arb<T>(xs); auto X = snap(x); s.bind(p, x); auto q = tref(X, xs, W, ws, sr, sc, same, nullptr); sym_assert(same_shape(e.shape(), q.os), "static shape"); tensor<T> o = s.run(e); std::vector<T> G(prod(q.os)); fin(G); auto R = tref(X, xs, W, ws, sr, sc, same, &G); want(o, R.os, R.o, "value");
    e.backward(from<T>(R.os, G)); sym_assert(*rx.s == xs && *rw.s == ws, "shape of the gradient"); sym_eq(rx.v->data(), R.dx.data(), R.dx.size(), "gradient of the image"); sym_eq(rw.v->data(), R.dw.data(), R.dw.size(), "gradient of the kernel"); want(x, xs, X, "image kept"); want(w, ws, W, "kernel kept"); } }
HARNESS(transpose_22) { tconv({1, 2, 3, 1}, {1, 2, 2, 1}, 1, 1, false); }
HARNESS(transpose_32_ch) { tconv({1, 2, 2, 2}, {2, 3, 2, 2}, 1, 1, false, {1}); }
HARNESS(transpose_stride) { tconv({1, 2, 2, 1}, {1, 2, 2, 1}, 2, 2, false, {1}); }
HARNESS(transpose_stride_21) { tconv({1, 2, 2, 1}, {1, 3, 2, 1}, 2, 1, false); }
HARNESS(transpose_same) { tconv({1, 2, 3, 1}, {1, 3, 3, 1}, 1, 1, true); }
HARNESS(transpose_same_stride) { tconv({1, 2, 2, 1}, {2, 3, 3, 1}, 2, 2, true); }
HARNESS(transpose_same_31) { tconv({1, 3, 2, 1}, {1, 3, 1, 1}, 1, 1, true); }
HARNESS(transpose_same_stride_12) { tconv({1, 2, 2, 2}, {1, 3, 3, 2}, 1, 2, true, {1}); }
