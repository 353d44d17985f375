#pragma once
#include "mover.hpp"
using namespace vh;
typedef double T;
struct geo { u64 kr, kc, sr = 1, sc = 1, dr = 1, dc = 1; bool same = false; };
static u64 padof(u64 k, u64 d, u64 s) { u64 e = d * (k - 1) + 1; return ((k & 1) + e - s) >> 1; }
// value and adjoints of a cross-correlation with zero padding
struct cres { shp os; std::vector<T> o, dx, dw; };
static cres ref(std::vector<T> const &X, shp xs, std::vector<T> const &W, shp ws, geo g, std::vector<T> const *G) {
  u64 pr = g.same ? padof(g.kr, g.dr, g.sr) : 0, pc = g.same ? padof(g.kc, g.dc, g.sc) : 0; cres R; u64 OH = (xs[1] + 2 * pr - (g.dr * (g.kr - 1) + 1)) / g.sr + 1, OW = (xs[2] + 2 * pc - (g.dc * (g.kc - 1) + 1)) / g.sc + 1; R.os = {xs[0], OH, OW, ws[0]}; R.o.assign(prod(R.os), 0); R.dx.assign(X.size(), 0); R.dw.assign(W.size(), 0); u64 k = 0;
  for (u64 b = 0; b < xs[0]; ++b) for (u64 i = 0; i < OH; ++i) for (u64 j = 0; j < OW; ++j) for (u64 n = 0; n < ws[0]; ++n, ++k) for (u64 r = 0; r < g.kr; ++r) for (u64 c = 0; c < g.kc; ++c) { long y = long(i * g.sr + r * g.dr) - long(pr), x = long(j * g.sc + c * g.dc) - long(pc); if (y < 0 || y >= long(xs[1]) || x < 0 || x >= long(xs[2])) continue;
    for (u64 ch = 0; ch < xs[3]; ++ch) { u64 xi = ((b * xs[1] + y) * xs[2] + x) * xs[3] + ch, wi = ((n * g.kr + r) * g.kc + c) * xs[3] + ch; R.o[k] += X[xi] * W[wi]; if (G) { R.dx[xi] += (*G)[k] * W[wi]; R.dw[wi] += (*G)[k] * X[xi]; } } }
  return R; }
template <typename F> void conv(F f, geo g, shp xs, u64 nc, std::vector<u64> batches) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); shp ws{nc, g.kr, g.kc, xs[3]}; auto w = arb<T>(ws); auto W = snap(w); variable<tensor<T>> vw{w}; place_holder<tensor<T>> p; xs[0] = batches[0]; s.bind(p, arb<T>(xs)); rec<T> rx, rw; auto e = f(probe(rx, p), probe(rw, vw));
  for (u64 b : batches) { xs[0] = b; auto x = arb<T>(xs); auto X = snap(x); s.bind(p, x); sym_assert(same_shape(e.shape(), ref(X, xs, W, ws, g, nullptr).os), "static shape"); tensor<T> o = s.run(e); std::vector<T> G(prod(ref(X, xs, W, ws, g, nullptr).os)); fin(G); auto R = ref(X, xs, W, ws, g, &G); want(o, R.os, R.o, "value");
    e.backward(from<T>(R.os, G)); sym_assert(*rx.s == xs && *rw.s == ws, "shape of the gradient"); sym_eq(rx.v->data(), R.dx.data(), R.dx.size(), "gradient of the image"); sym_eq(rw.v->data(), R.dw.data(), R.dw.size(), "gradient of the kernel"); want(x, xs, X, "image kept"); want(w, ws, W, "kernel kept"); } }
static void both(geo g, shp xs, u64 nc, std::vector<u64> batches = {1, 2}, bool general = true) {
  std::string pad = g.same ? "same" : "valid"; if (sym_choose(0, 1)) conv([=](auto const &x, auto const &w) { return conv2d(xs[1], xs[2], g.sr, g.sc, g.dr, g.dc, pad)(x, w); }, g, xs, nc, batches); else conv([=](auto const &x, auto const &w) { return general_conv2d(g.sr, g.sc, g.dr, g.dc, pad)(x, w); }, g, xs, nc, batches); }
#define CV(name, ...) HARNESS(name) { both(__VA_ARGS__); }
