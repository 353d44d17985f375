// Normalisation and dropout: what they compute while training and while predicting.
// BOUND: batches of shapes 1x3, 2x1, 3x2, 2x1x2, 2x2x1x2 and 1x2x3x1 with arbitrary entries and upstream gradients, every sequence of up to four passes over training and prediction on differently shaped batches, momentum 0.98, 0.5 and arbitrary in (0,1), dropout factors 0.25, 0.5 and arbitrary in (0.0625,0.9375), arbitrary random words; random tensors of up to 8 elements: uniform and glorot from arbitrary words, normal, truncated normal (limits at least one deviation away from the average) and poisson (averages 0, 1, 3) from the words of two fixed seeds with arbitrary average, deviation and limits
// ASSUME: floating point arithmetic is interpreted as real arithmetic; the output words of the Mersenne twister are arbitrary and independent
// OUTSIDE: a number of channels that changes between passes; backpropagation in the prediction phase
#include "mover.hpp"
using namespace vh;
typedef double T;
struct bn { T mom; bool seen = false; std::vector<T> A, V; bn(T m) : mom(m) {}
  std::vector<T> avg, var;
  std::vector<T> train(std::vector<T> const &x, u64 c) { u64 n = x.size() / c; avg.assign(c, 0); var.assign(c, 0); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < c; ++j) avg[j] += x[i * c + j]; for (auto &a : avg) a /= T(n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < c; ++j) { T d = x[i * c + j] - avg[j]; var[j] += d * d; } for (auto &a : var) a /= T(n);
    if (!seen) A.assign(c, 0), V.assign(c, 0); seen = true; for (u64 j = 0; j < c; ++j) A[j] = A[j] * mom + avg[j] * (1 - mom), V[j] = V[j] * mom + var[j] * (1 - mom);
    std::vector<T> o; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < c; ++j) o.push_back((x[i * c + j] - avg[j]) / std::sqrt(var[j] + eps)); return o; }
  std::vector<T> predict(std::vector<T> const &x, u64 c) { if (!seen) return x; std::vector<T> o; for (u64 i = 0; i < x.size(); ++i) o.push_back((x[i] - A[i % c]) / std::sqrt(V[i % c] + eps)); return o; }
  std::vector<T> grad(std::vector<T> const &g, std::vector<T> const &o, u64 c) { u64 n = g.size() / c; std::vector<T> m(c, 0), p(c, 0), r; for (u64 i = 0; i < g.size(); ++i) m[i % c] += g[i] / T(n), p[i % c] += g[i] * o[i] / T(n); for (u64 i = 0; i < g.size(); ++i) r.push_back((g[i] - m[i % c] - o[i] * p[i % c]) / std::sqrt(var[i % c] + eps)); return r; } };
// passes: t = train forward, b = train forward and backward, p = predict
template <typename F> void batches(F f, T mom, const char *passes, std::vector<shp> shapes) {
  auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> ph; rec<T> r; auto e = f(probe(r, ph)); bn b{mom};
  for (const char *p = passes; *p; ++p) { learning_phase = *p == 'p' ? 0 : 1; shp is = shapes[sym_choose(0, shapes.size() - 1)]; u64 c = is.back(); auto t = arb<T>(is); auto X = snap(t); s.bind(ph, t); tensor<T> o = s.run(e); auto ref = *p == 'p' ? b.predict(X, c) : b.train(X, c); want(o, is, ref, *p == 'p' ? "prediction" : "value"); want(t, is, X, "input kept"); sym_assert(e.shape() == ph.shape(), "static shape");
    if (*p == 'b') { auto g = arb<T>(is); auto G = snap(g); auto O = snap(o); e.backward(g); sym_assert(*r.s == is && r.v->size() == G.size(), "shape of the gradient"); auto w = b.grad(G, O, c); sym_eq(r.v->data(), w.data(), w.size(), "gradient"); want(g, is, G, "upstream gradient kept"); } }
  learning_phase = 1; }
#define NB(m) [&](auto const &x) { return normalization_batch(m)(x); }
static T unit(T lo = 0, T hi = 1) { T v; sym_fill(&v, 1); sym_assume((v > lo) & (v < hi)); return v; }
HARNESS(train1) { batches(NB(0.98), 0.98, "b", {{2, 1}, {3, 2}, {2, 1, 2}, {2, 2, 1, 2}, {1, 2, 3, 1}, {1, 3}}); }
HARNESS(train2) { batches(NB(0.5), 0.5, "tb", {{3, 2}, {2, 2}}); }
HARNESS(train3) { batches(NB(0.75), 0.75, "bb", {{1, 2, 1, 2}, {2, 2, 1, 2}}); }
HARNESS(predict1) { batches(NB(0.5), 0.5, "tp", {{3, 2}, {1, 2}}); }
HARNESS(predict2) { batches(NB(0.5), 0.5, "ttp", {{2, 2}, {1, 2}}); }
HARNESS(predict3) { batches(NB(0.75), 0.75, "bppbp", {{2, 1}}); }
HARNESS(predict_first) { batches(NB(0.5), 0.5, "pptp", {{2, 2}, {1, 2}}); }
HARNESS(predict_momentum) { T m = unit(); batches(NB(m), m, "ttp", {{2, 1}}); }
HARNESS(default_momentum) { batches([](auto const &x) { return normalization_batch()(x); }, 0.98, "tpb", {{2, 2}}); }
HARNESS(float_momentum) { batches([](auto const &x) { return normalization_batch(0.75f)(x); }, 0.75, "tp", {{2, 2, 1, 2}, {1, 1, 1, 2}}); }
// one functor applied to two expressions
HARNESS(two_layers) { auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p, q; auto f = normalization_batch(0.5); auto e = f(p), h = f(q); bn a{0.5}, b{0.5}; learning_phase = 1; auto x = arb<T>({2, 2}), y = arb<T>({3, 2}); auto X = snap(x), Y = snap(y); s.bind(p, x); s.bind(q, y); want(tensor<T>(s.run(e)), {2, 2}, a.train(X, 2), "value"); want(tensor<T>(s.run(h)), {3, 2}, b.train(Y, 2), "value"); learning_phase = 0; want(tensor<T>(s.run(e)), {2, 2}, a.predict(X, 2), "prediction"); want(tensor<T>(s.run(h)), {3, 2}, b.predict(Y, 2), "prediction"); learning_phase = 1; }
// with gamma and beta
HARNESS(affine) { auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p; auto tg = arb<T>({2}), tb = arb<T>({2}); auto GA = snap(tg), BE = snap(tb); variable<tensor<T>> gamma{tg}, beta{tb}; rec<T> r; auto e = batch_normalization(0.5)(probe(r, p), gamma, beta); bn b{0.5};
  for (const char *c = "bpb"; *c; ++c) { learning_phase = *c == 'p' ? 0 : 1; shp is = sym_choose(0, 1) ? shp{3, 2} : shp{2, 1, 1, 2}; u64 n = prod(is); auto x = arb<T>(is); auto X = snap(x); s.bind(p, x); auto y = *c == 'p' ? b.predict(X, 2) : b.train(X, 2); std::vector<T> o(n); for (u64 i = 0; i < n; ++i) o[i] = y[i] * GA[i % 2] + BE[i % 2]; tensor<T> got = s.run(e); want(got, is, o, "value");
    if (*c == 'b') { auto g = arb<T>(is); std::vector<T> gg(2, 0), gb(2, 0), gy(n); for (u64 i = 0; i < n; ++i) { gg[i % 2] += g.data()[i] * y[i]; gb[i % 2] += g.data()[i]; gy[i] = g.data()[i] * GA[i % 2]; } e.backward(g); want(gamma.gradient(), {2}, gg, "gradient of gamma"); want(beta.gradient(), {2}, gb, "gradient of beta"); auto w = b.grad(gy, y, 2); sym_assert(*r.s == is, "shape of the gradient"); sym_eq(r.v->data(), w.data(), n, "gradient"); } }
  learning_phase = 1; }
// dropout: every element is dropped or scaled by 1 / (1 - factor), in the same way in both directions; predictions pass through
template <typename F> void drop(F f, T factor, const char *passes, std::vector<shp> shapes) {
  auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> ph; rec<T> r; auto e = f(probe(r, ph)); sym_rand(64);
  for (const char *p = passes; *p; ++p) { learning_phase = *p == 'p' ? 0 : 1; shp is = shapes[sym_choose(0, shapes.size() - 1)]; auto t = arb<T>(is); auto X = snap(t); s.bind(ph, t); tensor<T> o = s.run(e); sym_assert(same_shape(o, is), "shape"); auto O = snap(o); want(t, is, X, "input kept");
    if (*p == 'p') { sym_eq(O.data(), X.data(), X.size(), "prediction"); continue; }
    auto z = std::vector<T>(X.size(), T(0)), q = z; for (u64 i = 0; i < X.size(); ++i) q[i] = O[i] * (O[i] * (1 - factor) - X[i]); sym_eq(q.data(), z.data(), z.size(), "dropped or scaled");
    if (*p == 'b') { auto g = arb<T>(is); auto G = snap(g); e.backward(g); sym_assert(*r.s == is && r.v->size() == G.size(), "shape of the gradient"); auto &R = *r.v; for (u64 i = 0; i < X.size(); ++i) q[i] = R[i] * (R[i] * (1 - factor) - G[i]); sym_eq(q.data(), z.data(), z.size(), "gradient dropped or scaled"); for (u64 i = 0; i < X.size(); ++i) q[i] = R[i] * X[i] - O[i] * G[i]; sym_eq(q.data(), z.data(), z.size(), "same elements in both directions"); want(g, is, G, "upstream gradient kept"); } }
  learning_phase = 1; }
#define DO(k) [&](auto const &x) { return drop_out(k)(x); }
HARNESS(drop1) { drop(DO(0.5), 0.5, "b", {{2, 2}, {3}, {1, 2, 2, 1}}); }
HARNESS(drop2) { drop(DO(0.25), 0.25, "tb", {{2}, {2, 2}}); }
HARNESS(drop3) { drop(DO(0.75), 0.75, "bpb", {{1, 2}, {3, 1}}); }
HARNESS(drop_any) { T k = unit(0.0625, 0.9375); drop(DO(k), k, "b", {{2, 1}}); }
HARNESS(drop_predict) { drop(DO(0.5), 0.5, "pp", {{2}, {3, 2}}); }
HARNESS(drop_layer) { drop([](auto const &x) { return Dropout(0.25)(x); }, 0.25, "bp", {{2, 2}}); }
HARNESS(drop_alias) { drop([](auto const &x) { return dropout(0.5)(x); }, 0.5, "bp", {{3}}); }
// random words that are not extreme: a factor near zero keeps every element, one near one drops every element
// random words that are not extreme: a factor near zero keeps every element, one near one drops every element
HARNESS(rate) { learning_phase = 1; sym_rand(16); auto &s = get_default_session<tensor<T>>(); bool low = sym_choose(0, 1); T k = low ? 0.02 : 0.98; auto t = arb<T>({3}); variable<tensor<T>> v{t}; auto X = snap(t); auto e = drop_out(k)(v); random_generator(); auto copy = random_generator; for (int i = 0; i < 15; ++i) { u64 w = copy(); sym_assume((w > 0x10000000UL) & (w < 0xF0000000UL)); } tensor<T> o = s.run(e); std::vector<T> r(3); for (int i = 0; i < 3; ++i) r[i] = low ? X[i] / (1 - k) : T(0); want(o, {3}, r, "value"); }
// random tensors stay within their bounds, in the shape asked for
HARNESS(uniform) { sym_rand(16); shp is = sym_choose(0, 1) ? shp{2, 3} : shp{4}; u64 k = sym_choose(0, 2); T lo = k == 0 ? -2 : k == 1 ? 5 : -0.25, hi = k == 0 ? 3 : k == 1 ? 5.5 : -0.125; auto t = sym_choose(0, 1) ? random<T>(is, lo, hi) : rand<T>(is, lo, hi); sym_assert(same_shape(t, is), "shape"); for (u64 i = 0; i < t.size(); ++i) sym_assert((t.data()[i] >= lo) & (t.data()[i] < hi), "within the bounds"); }
HARNESS(uniform_default) { sym_rand(16); auto t = random<T>({2, 2}); for (u64 i = 0; i < 4; ++i) sym_assert((t.data()[i] >= 0) & (t.data()[i] < 1), "within the bounds"); auto u = random_like(t); sym_assert(same_shape(u, {2, 2}), "shape"); for (u64 i = 0; i < 4; ++i) sym_assert((u.data()[i] >= 0) & (u.data()[i] < 1), "within the bounds"); }
HARNESS(glorot) { sym_rand(24); auto t = glorot_uniform<T>({2, 4}); sym_assert(same_shape(t, {2, 4}), "shape"); for (u64 i = 0; i < 8; ++i) sym_assert((t.data()[i] >= -1) & (t.data()[i] < 1), "within the bounds"); }
// every pass has a mask of its own, also when the shape of the batch stays the same
HARNESS(drop_fresh) { learning_phase = 1; sym_rand(32); auto &s = get_default_session<tensor<T>>(); auto t = arb<T>({3}); variable<tensor<T>> v{t}; auto X = snap(t); bool first = sym_choose(0, 1); auto e = drop_out(0.5)(v); random_generator(); for (int pass = 0; pass < 2; ++pass) { bool keep = first == (pass == 0); auto copy = random_generator; for (int i = 0; i < 12; ++i) { u64 w = copy(); sym_assume(keep ? w > 0x90000000UL : w < 0x70000000UL); } auto after = copy; tensor<T> o = s.run(e); std::vector<T> r(3); for (int i = 0; i < 3; ++i) r[i] = keep ? X[i] * 2 : T(0); want(o, {3}, r, "value"); auto g = arb<T>({3}); auto G = snap(g); e.backward(g); std::vector<T> w(3); for (int i = 0; i < 3; ++i) w[i] = keep ? G[i] * 2 : T(0); want(v.gradient(), {3}, w, "gradient"); v.gradient().reset(); random_generator = after; } }
// random tensors are the draws of the distribution asked for, one after another
template <typename D> static std::vector<T> draws(std::mt19937 &g, D d, u64 n) { std::vector<T> r; for (u64 i = 0; i < n; ++i) r.push_back(T(d(g))); return r; }
static T any() { T v; sym_fill(&v, 1); return v; }
#define SCALED(g, n) auto z = draws(g, std::normal_distribution<T>(0, 1), n); for (auto &x : z) x = m + d * x
static void seeded() { random_generator.seed(sym_choose(0, 1) ? 7 : 20211); }
HARNESS(normal) { seeded(); shp is = sym_choose(0, 1) ? shp{2, 2} : shp{5}; T m = any(), d = unit(0.125, 8); auto g = random_generator; auto t = randn<T>(is, m, d); SCALED(g, t.size()); want(t, is, z, "value"); }
HARNESS(normal_default) { seeded(); T m = any(), d = 1; auto g = random_generator; auto t = randn<T>({3}, m); SCALED(g, 3); want(t, {3}, z, "value"); }
HARNESS(normal_like) { seeded(); auto r = arb<T>({1, 3}); auto R = snap(r); T m = any(), d = unit(0.125, 8); auto g = random_generator; auto t = randn_like(r, m, d); SCALED(g, 3); want(t, {1, 3}, z, "value"); want(r, {1, 3}, R, "input kept"); }
HARNESS(normal_expression) { seeded(); auto &s = get_default_session<tensor<T>>(); auto r = arb<T>({2, 2}); variable<tensor<T>> v{r}; auto R = snap(r); T m = any(), d = unit(0.125, 8); auto e = random_normal_like(m, d)(v); for (int k = 0; k < 2; ++k) { auto g = random_generator; tensor<T> t = s.run(e); SCALED(g, 4); want(t, {2, 2}, z, "value"); e.backward(arb<T>({2, 2})); want(v.gradient(), {2, 2}, std::vector<T>(4, T(0)), "gradient"); want(v.data(), {2, 2}, R, "input kept"); } }
// rejected draws are drawn again: the limits are at least half a deviation away from the average
HARNESS(truncated) { seeded(); T m = any(), d = unit(0.125, 8), lo = any(), hi = any(); sym_assume((lo <= m - d) & (hi >= m + d)); auto g = random_generator; auto t = truncated_normal<T>({2, 2}, m, d, lo, hi); sym_assert(same_shape(t, {2, 2}), "shape"); std::normal_distribution<T> D(0, 1); for (u64 i = 0; i < 4; ++i) { T x; do x = m + d * D(g); while (x < lo || x > hi); sym_eq(t.data() + i, &x, 1, "value"); sym_assert((t.data()[i] >= lo) & (t.data()[i] <= hi), "within the limits"); } }
HARNESS(uniform_draws) { sym_rand(16); random_generator(); T lo = any(), w = unit(0.125, 8), hi = lo + w; bool like = sym_choose(0, 1); auto g = random_generator; auto r = zeros<T>({2, 2}); auto t = like ? random_like(r, lo, hi) : random<T>({2, 2}, lo, hi); auto z = draws(g, std::uniform_real_distribution<T>(0, 1), 4); for (auto &x : z) x = lo + w * x; want(t, {2, 2}, z, "value"); }
HARNESS(glorot_draws) { sym_rand(24); random_generator(); bool k = sym_choose(0, 1); auto g = random_generator; auto t = k ? glorot_uniform<T>({1, 5}) : glorot_uniform<T>({4, 2}); auto z = draws(g, std::uniform_real_distribution<T>(-1, 1), k ? 5 : 8); want(t, k ? shp{1, 5} : shp{4, 2}, z, "value"); }
HARNESS(poisson_draws) { seeded(); std::vector<T> z, a; for (int i = 0; i < 3; ++i) a.push_back(sym_choose(0, 2) * 1.5); auto t = from<T>({3}, a); bool ex = sym_choose(0, 1); auto g = random_generator; auto o = zeros<T>({3}); if (ex) { variable<tensor<T>> v{t}; auto e = poisson(v); o = get_default_session<tensor<T>>().run(e); } else o = poisson(t); for (int i = 0; i < 3; ++i) { std::poisson_distribution<long> D(1); z.push_back(T(D(g, std::poisson_distribution<long>::param_type(u64(a[i]))))); } want(o, {3}, z, "value"); want(t, {3}, a, "input kept"); }
