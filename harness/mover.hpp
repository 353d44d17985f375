#pragma once
#include "sym.hpp"
namespace vh {
  // an identity operator that records the gradient that reaches it
  template <typename T> struct rec { std::shared_ptr<std::vector<T>> v = std::make_shared<std::vector<T>>(); std::shared_ptr<shp> s = std::make_shared<shp>(); std::shared_ptr<int> n = std::make_shared<int>(0); };
  template <typename T, typename Ex> auto probe(rec<T> const &r, Ex const &ex) {
    return make_unary_operator([v = r.v]<Tensor Z>(Z const &t) noexcept { v->clear(); return t; }, // a gradient that arrives over several paths is summed
      [v = r.v, s = r.s, n = r.n]<Tensor Z>(Z const &, Z const &, Z const &g) noexcept { if (v->size() != g.size()) *v = std::vector<T>(g.data(), g.data() + g.size()); else for (u64 i = 0; i < g.size(); ++i) (*v)[i] += g.data()[i]; auto q = g.shape(); s->assign(q.begin(), q.end()); ++*n; return g; }, "probe")(ex); }
  struct refmap { shp s; std::vector<long> m; }; // out[i] = m[i] < 0 ? 0 : in[m[i]]
  template <typename T> std::vector<T> fwd(refmap const &r, std::vector<T> const &v) { std::vector<T> o; for (long k : r.m) o.push_back(k < 0 ? T(0) : v[k]); return o; }
  template <typename T> std::vector<T> adj(refmap const &r, std::vector<T> const &g, u64 n) { std::vector<T> o(n, T(0)); for (u64 i = 0; i < g.size(); ++i) if (r.m[i] >= 0) o[r.m[i]] += g[i]; return o; }
  // index decomposition
  inline std::vector<u64> unflat(u64 f, shp const &s) { std::vector<u64> c(s.size()); for (u64 k = s.size(); k-- > 0;) { c[k] = f % s[k]; f /= s[k]; } return c; }
  inline long flat(std::vector<u64> const &c, shp const &s) { long f = 0; for (u64 k = 0; k < s.size(); ++k) f = f * s[k] + c[k]; return f; }
  template <typename F> refmap rmap(shp const &os, F f) { refmap r; r.s = os; for (u64 i = 0; i < prod(os); ++i) r.m.push_back(f(unflat(i, os))); return r; }

  // a data-movement operator: values, gradients and shapes over a history of differently shaped inputs, through one expression
  template <typename T, typename F, typename R> void mover(const char *, F f, R ref, std::vector<shp> hist, int steps = 2) {
    learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p; rec<T> r; auto e = f(probe(r, p));
    for (int k = 0; k < steps; ++k) { shp is = hist[sym_choose(0, hist.size() - 1)]; refmap m = ref(is); auto t = arb<T>(is); auto A = snap(t);
      s.bind(p, t); tensor<T> o = s.run(e); sym_assert(same_shape(f(variable<tensor<T>>{t}).shape(), m.s), "static shape"); want(o, m.s, fwd(m, A), "value"); std::vector<T> g(m.m.size()); fin(g);
      e.backward(from<T>(m.s, g)); sym_assert(*r.s == is, "shape of the gradient"); sym_assert(r.v->size() == A.size(), "size of the gradient"); auto w = adj(m, g, A.size()); sym_eq(r.v->data(), w.data(), w.size(), "gradient"); want(t, is, A, "input kept"); sym_assert(same_shape(p.shape(), is), "shape of the placeholder"); } }
  // the same functor applied to two expressions
  template <typename T, typename F, typename R> void twice(const char *, F f, R ref, shp sa) {
    learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p, q; rec<T> r1, r2; auto e = f(probe(r1, p)) - f(probe(r2, q)); auto a = arb<T>(sa), b = arb<T>(sa); auto A = snap(a), B = snap(b); refmap m = ref(sa);
    s.bind(p, a); s.bind(q, b); tensor<T> o = s.run(e); auto x = fwd(m, A), y = fwd(m, B); for (u64 i = 0; i < x.size(); ++i) x[i] -= y[i]; want(o, m.s, x, "value"); std::vector<T> g(x.size()); fin(g); e.backward(from<T>(m.s, g));
    auto w = adj(m, g, A.size()); sym_assert(r1.v->size() == A.size() && r2.v->size() == A.size(), "size of the gradient"); sym_eq(r1.v->data(), w.data(), w.size(), "gradient of the first"); for (auto &z : w) z = -z; sym_eq(r2.v->data(), w.data(), w.size(), "gradient of the second"); }
}
