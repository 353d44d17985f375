#pragma once
#include "mover.hpp"
using namespace vh;
typedef double T;
enum kind { SUM, MEAN, MIN, MAX, ARGMAX, ARGMIN };
// every element of the result is reduced from a list of elements of the input
struct grp { shp s; std::vector<std::vector<u64>> in; };
static grp along(shp is, u64 ax) { if (ax >= is.size()) ax = is.size() - 1; grp r; for (u64 k = 0; k < is.size(); ++k) if (k != ax) r.s.push_back(is[k]); for (u64 i = 0; i < prod(r.s); ++i) { auto c = unflat(i, r.s); c.insert(c.begin() + ax, 0); std::vector<u64> v; for (u64 k = 0; k < is[ax]; ++k) { c[ax] = k; v.push_back(flat(c, is)); } r.in.push_back(v); } return r; }
static grp pool(shp is, u64 st) { grp r; r.s = {is[0], is[1] / st, is[2] / st, is[3]}; for (u64 i = 0; i < prod(r.s); ++i) { auto c = unflat(i, r.s); std::vector<u64> v; for (u64 a = 0; a < st; ++a) for (u64 b = 0; b < st; ++b) v.push_back(flat({c[0], c[1] * st + a, c[2] * st + b, c[3]}, is)); r.in.push_back(v); } return r; }
static grp whole(shp is) { grp r; r.s = {1}; std::vector<u64> v; for (u64 i = 0; i < prod(is); ++i) v.push_back(i); r.in.push_back(v); return r; }
static void distinct(std::vector<T> const &A, grp const &m) { bool ok = true; for (auto &v : m.in) for (u64 i = 0; i < v.size(); ++i) for (u64 j = 0; j < i; ++j) ok = ok & ((A[v[i]] < A[v[j]]) | (A[v[i]] > A[v[j]])); sym_assume(ok); }
static bool best(std::vector<T> const &A, std::vector<u64> const &v, u64 j, bool mx) { bool b = true; for (u64 i = 0; i < v.size(); ++i) if (i != j) b = b & (mx ? A[v[i]] < A[v[j]] : A[v[i]] > A[v[j]]); return b; }
static std::vector<T> rval(kind k, std::vector<T> const &A, grp const &m) { std::vector<T> o; for (auto &v : m.in) { T x = 0; for (u64 j = 0; j < v.size(); ++j) if (k <= MEAN) x += A[v[j]]; else if (k <= MAX) { T y = A[v[j]]; x = best(A, v, j, k == MAX) ? y : x; } else x = best(A, v, j, k == ARGMAX) ? T(j) : x; o.push_back(k == MEAN ? x / T(v.size()) : x); } return o; }
static std::vector<T> rgrad(kind k, std::vector<T> const &A, grp const &m, std::vector<T> const &g) { std::vector<T> o(A.size(), T(0)); for (u64 i = 0; i < m.in.size(); ++i) for (u64 j = 0; j < m.in[i].size(); ++j) { auto &v = m.in[i]; T y = g[i]; if (k == SUM) o[v[j]] += y; else if (k == MEAN) o[v[j]] += y / T(v.size()); else if (k <= MAX) o[v[j]] += best(A, v, j, k == MAX) ? y : T(0); } return o; }
// values, gradients and shapes through one expression over a history of inputs
template <typename F, typename R> void redu(kind k, F f, R ref, std::vector<shp> hist, int steps = 2, bool inorder = false) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p; rec<T> r; auto e = f(probe(r, p));
  for (int q = 0; q < steps; ++q) { shp is = inorder ? hist[q] : hist[sym_choose(0, hist.size() - 1)]; grp m = ref(is); auto t = arb<T>(is); auto A = snap(t); if (k >= MIN) distinct(A, m);
    s.bind(p, t); sym_assert(same_shape(f(variable<tensor<T>>{t}).shape(), m.s), "static shape"); tensor<T> o = s.run(e); want(o, m.s, rval(k, A, m), "value"); std::vector<T> g(m.in.size()); fin(g); e.backward(from<T>(m.s, g));
    sym_assert(*r.s == is, "shape of the gradient"); auto w = rgrad(k, A, m, g); sym_assert(r.v->size() == w.size(), "size of the gradient"); sym_eq(r.v->data(), w.data(), w.size(), "gradient"); want(t, is, A, "input kept"); } }
// one functor, two expressions
template <typename F, typename R> void redu2(kind k, F f, R ref, shp is) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); rec<T> r1, r2; auto a = arb<T>(is), b = arb<T>(is); auto A = snap(a), B = snap(b); grp m = ref(is); if (k >= MIN) distinct(A, m), distinct(B, m); variable<tensor<T>> p{a}, q{b}; auto e = f(probe(r1, p)) - f(probe(r2, q));
  tensor<T> o = s.run(e); auto x = rval(k, A, m), y = rval(k, B, m); for (u64 i = 0; i < x.size(); ++i) x[i] -= y[i]; want(o, m.s, x, "value"); std::vector<T> g(x.size()); fin(g); e.backward(from<T>(m.s, g)); auto w = rgrad(k, A, m, g); for (auto &z : g) z = -z; auto v = rgrad(k, B, m, g);
  sym_assert(r1.v->size() == A.size() && r2.v->size() == A.size(), "size of the gradient"); sym_eq(r1.v->data(), w.data(), w.size(), "gradient of the first"); sym_eq(r2.v->data(), v.data(), v.size(), "gradient of the second"); }
