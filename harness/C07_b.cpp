#include "mover.hpp"
using namespace vh;
typedef double T;
#define MV(name, F, R, ...) HARNESS(name) { mover<T>(#name, F, R, {__VA_ARGS__}); } HARNESS(name##_twice) { std::vector<shp> h{__VA_ARGS__}; twice<T>(#name, F, R, h[0]); }
static refmap zp(shp is, u64 t, u64 b, u64 l, u64 r) { return rmap({is[0], is[1] + t + b, is[2] + l + r, is[3]}, [=](std::vector<u64> c) -> long { if (c[1] < t || c[1] >= t + is[1] || c[2] < l || c[2] >= l + is[2]) return -1; c[1] -= t; c[2] -= l; return flat(c, is); }); }
MV(zero_padding_1, (zero_padding_2d({1})), ([](shp is) { return zp(is, 1, 1, 1, 1); }), {1, 2, 3, 1}, {2, 2, 1, 1}, {1, 1, 1, 2})
MV(zero_padding_2, (zero_padding_2d({1, 2})), ([](shp is) { return zp(is, 1, 1, 2, 2); }), {1, 2, 1, 2}, {1, 3, 2, 1})
MV(zero_padding_4, (zero_padding_2d({1, 2, 3, 1})), ([](shp is) { return zp(is, 1, 2, 3, 1); }), {1, 2, 2, 1}, {2, 1, 1, 1}, {1, 1, 2, 1})
// same number of elements of the result, different border: the buffer of the operator is used again
MV(zero_padding_swap, (zero_padding_2d({1})), ([](shp is) { return zp(is, 1, 1, 1, 1); }), {1, 1, 4, 1}, {1, 4, 1, 1})
static refmap cr(shp is, u64 t, u64 b, u64 l, u64 r) { return rmap({is[0], is[1] - t - b, is[2] - l - r, is[3]}, [=](std::vector<u64> c) { c[1] += t; c[2] += l; return flat(c, is); }); }
MV(cropping_1, (cropping_2d({1})), ([](shp is) { return cr(is, 1, 1, 1, 1); }), {1, 3, 4, 1}, {2, 4, 3, 1}, {1, 3, 3, 2})
MV(cropping_2, (cropping_2d({1, 2})), ([](shp is) { return cr(is, 1, 1, 2, 2); }), {1, 3, 5, 2}, {1, 4, 6, 1})
MV(cropping_4, (cropping_2d({1, 2, 3, 1})), ([](shp is) { return cr(is, 1, 2, 3, 1); }), {1, 4, 5, 1}, {2, 5, 6, 1}, {1, 5, 5, 1})
static refmap up(shp is, u64 n) { return rmap({is[0], is[1] * n, is[2] * n, is[3]}, [=](std::vector<u64> c) { c[1] /= n; c[2] /= n; return flat(c, is); }); }
MV(up_sampling_2, (up_sampling_2d(2)), ([](shp is) { return up(is, 2); }), {1, 2, 3, 1}, {2, 1, 2, 2}, {1, 3, 2, 1})
MV(up_sampling_3, (upsampling_2d(3)), ([](shp is) { return up(is, 3); }), {1, 2, 1, 2}, {1, 1, 2, 1})
// concatenation
static void cat(bool keras, u64 axe, std::vector<std::pair<shp, shp>> hist, bool dflt = false) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p, q; rec<T> r1, r2; auto l = probe(r1, p); auto r = probe(r2, q);
  auto body = [&](auto e) { for (int k = 0; k < 2; ++k) { auto [sa, sb] = hist[sym_choose(0, hist.size() - 1)]; u64 ax = axe == -1UL ? sa.size() - 1 : axe; auto a = arb<T>(sa), b = arb<T>(sb); auto A = snap(a), B = snap(b); shp o = sa; o[ax] += sb[ax]; std::vector<T> w; std::vector<std::pair<int, long>> m;
    for (u64 i = 0; i < prod(o); ++i) { auto c = unflat(i, o); if (c[ax] < sa[ax]) { m.push_back({0, flat(c, sa)}); w.push_back(A[m.back().second]); } else { c[ax] -= sa[ax]; m.push_back({1, flat(c, sb)}); w.push_back(B[m.back().second]); } }
    s.bind(p, a); s.bind(q, b); sym_assert(same_shape(e.shape(), o), "static shape"); tensor<T> out = s.run(e); want(out, o, w, "value"); std::vector<T> g(w.size()), ga(A.size()), gb(B.size()); fin(g); for (u64 i = 0; i < g.size(); ++i) (m[i].first ? gb : ga)[m[i].second] = g[i];
    e.backward(from<T>(o, g)); sym_assert(*r1.s == sa && *r2.s == sb, "shape of the gradient"); sym_eq(r1.v->data(), ga.data(), ga.size(), "gradient of the first"); sym_eq(r2.v->data(), gb.data(), gb.size(), "gradient of the second"); want(a, sa, A, "input kept"); want(b, sb, B, "input kept"); } };
  if (dflt) { u64 which = sym_choose(0, 2); if (which == 0) body(concat(l, r)); else if (which == 1) body(concat()(l, r)); else body(concatenate()(l, r)); } else if (keras) body(concatenate(axe)(l, r)); else body(concatenate(l, r)(axe)); }
HARNESS(concat_0) { cat(sym_choose(0, 1), 0, {{{2, 3}, {1, 3}}, {{1, 2, 2}, {3, 2, 2}}, {{4}, {3}}}); }
HARNESS(concat_1) { cat(sym_choose(0, 1), 1, {{{2, 3}, {2, 1}}, {{2, 1, 2}, {2, 3, 2}}, {{1, 2}, {1, 5}}}); }
HARNESS(concat_2) { cat(sym_choose(0, 1), 2, {{{2, 2, 1}, {2, 2, 3}}, {{1, 2, 3, 2}, {1, 2, 1, 2}}}); }
HARNESS(concat_last) { cat(sym_choose(0, 1), -1UL, {{{2, 3}, {2, 2}}, {{4}, {1}}, {{1, 2, 2, 2}, {1, 2, 2, 1}}}); }
HARNESS(concat_default) { cat(false, -1UL, {{{2, 3}, {2, 2}}, {{2, 2, 1}, {2, 2, 3}}}, true); }
// sliding: in training each channel is moved by at most n pixels in each direction, zeros enter at the border; the gradient follows the same moves
HARNESS(sliding) { learning_phase = 1; sym_rand(2); u64 ch = 1; shp is{1, 2, 2, ch};
#ifdef THOROUGH
  ch = sym_choose(1, 2); is = {1, 2, 3, ch}; if (ch == 2) { is = {1, 1, 2, 2}; sym_rand(4); }
#endif
  u64 n = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p; rec<T> r; auto e = sliding_2d(n)(probe(r, p)); auto t = arb<T>(is); auto A = snap(t); s.bind(p, t); tensor<T> o = s.run(e); sym_assert(same_shape(o, is), "shape"); auto O = snap(o); std::vector<T> g(A.size()); fin(g); e.backward(from<T>(is, g)); sym_assert(r.v->size() == A.size() && *r.s == is, "shape of the gradient");
  for (u64 c = 0; c < ch; ++c) { bool any = false; for (long dr = -1; dr <= 1; ++dr) for (long dc = -1; dc <= 1; ++dc) { bool ok = true; for (long i = 0; i < (long)is[1]; ++i) for (long j = 0; j < (long)is[2]; ++j) { long si = i - dr, sj = j - dc; bool in = si >= 0 && si < (long)is[1] && sj >= 0 && sj < (long)is[2]; T w = in ? A[(si * is[2] + sj) * ch + c] : T(0); ok = ok & (O[(i * is[2] + j) * ch + c] == w);
        long ti = i + dr, tj = j + dc; in = ti >= 0 && ti < (long)is[1] && tj >= 0 && tj < (long)is[2]; w = in ? g[(ti * is[2] + tj) * ch + c] : T(0); ok = ok & ((*r.v)[(i * is[2] + j) * ch + c] == w); } any = any | ok; } sym_assert(any, "moved by at most n pixels, gradient by the same move"); }
  learning_phase = 0; tensor<T> o2 = s.run(e); want(o2, is, A, "unchanged in prediction"); learning_phase = 1; }
