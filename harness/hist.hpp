#pragma once
#include "mover.hpp"
using namespace vh;
typedef double T;
#ifdef THOROUGH
#define RUNS 3
#else
#define RUNS 2
#endif
// one expression over a history of bindings, against a fresh expression on the last of them
template <typename F> void hist(F f, std::vector<shp> shapes, bool box, double lo, double hi, int runs = RUNS) {
  learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p, q; rec<T> r, r2; auto e = f(probe(r, p));
  for (int k = 0; k < runs; ++k) { shp is = shapes[sym_choose(0, shapes.size() - 1)]; auto t = arb<T>(is); auto A = snap(t); if (box) { bool ok = true; for (auto x : A) ok = ok & (x > lo) & (x < hi); sym_assume(ok); }
    s.bind(p, t); tensor<T> o = s.run(e); std::vector<T> O = snap(o); shp os = o.shape(); auto g = arb<T>(os); auto G = snap(g); bool again = k == 0 && sym_choose(0, 1); if (again) { tensor<T> o1 = s.run(e); sym_eq(o1.data(), O.data(), O.size(), "second run on the same input"); }
    if (k + 1 < runs && sym_choose(0, 1)) continue; // forward only
    e.backward(g); auto R = *r.v; auto RS = *r.s; if (again) { r.v->clear(); e.backward(g); sym_eq(r.v->data(), R.data(), R.size(), "second backpropagation"); }
    if (k + 1 < runs) continue;
    auto e2 = f(probe(r2, q)); s.bind(q, from<T>(is, A)); tensor<T> o2 = s.run(e2); sym_assert(same_shape(o2, os), "shape after earlier runs"); sym_eq(O.data(), o2.data(), O.size(), "value after earlier runs"); e2.backward(from<T>(os, G));
    sym_assert(RS == *r2.s && R.size() == r2.v->size(), "shape of the gradient after earlier runs"); sym_eq(R.data(), r2.v->data(), R.size(), "gradient after earlier runs"); want(t, is, A, "input kept"); want(g, os, G, "upstream gradient kept"); } }
