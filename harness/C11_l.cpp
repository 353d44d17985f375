// BOUND: fifty passes of one expression over bindings of seven changing shapes (arbitrary entries in every pass), forward and, in most, backward
#include "hist.hpp"
// fifty passes of one expression; every one is compared with an expression made for it
template <typename F> static void lasting(F f, std::vector<shp> shapes, int runs = 50) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p; rec<T> r; auto e = f(probe(r, p));
  for (int k = 0; k < runs; ++k) { shp is = shapes[(k * k + k / 7) % shapes.size()]; auto t = arb<T>(is); auto A = snap(t); s.bind(p, t); tensor<T> o = s.run(e).deep_copy(); place_holder<tensor<T>> q; rec<T> r2; auto e2 = f(probe(r2, q)); s.bind(q, from<T>(is, A)); tensor<T> o2 = s.run(e2).deep_copy(); auto O = snap(o2); want(o, o2.shape(), O, "value of a later pass"); if (k % 5 == 3) continue; auto g = arb<T>(o.shape()); auto G = snap(g); e.backward(g); e2.backward(from<T>(o.shape(), G)); sym_assert(*r.s == *r2.s && r.v->size() == r2.v->size(), "shape of the gradient of a later pass"); sym_eq(r.v->data(), r2.v->data(), r.v->size(), "gradient of a later pass"); } }
#define ANY {{2, 3}, {1, 3}, {4, 1}, {2, 2}, {3, 2}, {1, 1}, {9, 2}}
#define IMG {{1, 2, 2, 1}, {2, 4, 2, 1}, {1, 2, 4, 2}, {1, 4, 4, 1}}
#define L(n, e, sh) HARNESS(lasting_##n) { lasting([](auto const &x) { return e; }, sh); }
L(relu, relu(x), ANY) L(square, square(x), ANY) L(twice, (x + x), ANY) L(product, hadamard_product(x, x), ANY) L(negative, negative(x), ANY) L(flatten, flatten(x), ANY) L(transpose, transpose(x), ANY) L(concat, concatenate(x, x)(), ANY) L(sum, reduce_sum(1)(x), ANY) L(mean, mean_reduce(x), ANY) L(upsample, up_sampling_2d(2)(x), IMG) L(pad, zero_padding_2d({1, 1})(x), IMG) L(pool, average_pooling_2d(2)(x), IMG) L(flip, flip(0)(x), ANY) L(repeat, repeat(2, 0)(x), ANY) L(exponential, exponential(x), ANY) L(tanh, tanh(x), ANY) L(clip, clip(-1.0, 1.0)(x), ANY)
