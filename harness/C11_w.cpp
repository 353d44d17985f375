// BOUND: batches that change between 1, 3 and 40 samples, tensors that change between 2 and 300 elements, eight passes in a row for some
#include "hist.hpp"
#define H(n, e, ...) HARNESS(wide_##n) { hist([](auto const &x) { return e; }, {__VA_ARGS__}, false, -1e9, 1e9, 2); }
H(relu, relu(x), {300}, {2}) H(square, square(x), {40, 3}, {1, 3}) H(negative, negative(x), {3, 100}, {1, 2}) H(add, (x + x), {40, 3}, {3, 40}, {1, 3}) H(flatten, flatten(x), {40, 3, 2}, {1, 3, 2}) H(transpose, transpose(x), {3, 40}, {40, 3}, {1, 1}) H(concat, concatenate(x, x)(), {40, 3}, {1, 3}) H(sum, reduce_sum(1)(x), {3, 40}, {40, 2}, {2, 1}) H(sum_all, sum_reduce(x), {300}, {2}) H(upsample, up_sampling_2d(2)(x), {1, 9, 9, 1}, {3, 1, 2, 1}) H(pad, zero_padding_2d({1, 1})(x), {1, 9, 9, 1}, {3, 1, 2, 1}) H(pool, average_pooling_2d(2)(x), {1, 10, 10, 1}, {3, 2, 2, 1}) H(flip, flip(0)(x), {40, 3}, {2, 3})
HARNESS(wide_batches) { auto &s = get_default_session<tensor<T>>(); learning_phase = 1; auto tw = arb<T>({3, 2}), tb = arb<T>({2}); auto Wt = snap(tw), B = snap(tb); variable<tensor<T>> w{tw}, b{tb}; place_holder<tensor<T>> x; auto e = x * w + b; for (u64 n : {1, 9, 40, 2, 9, 1, 17, 3}) { auto t = arb<T>({n, 3}); auto X = snap(t); s.bind(x, t); tensor<T> o = s.run(e); std::vector<T> r, gw(6, T(0)), gb(2, T(0)); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < 2; ++j) { T v = B[j]; for (u64 k = 0; k < 3; ++k) v += X[i * 3 + k] * Wt[k * 2 + j]; r.push_back(v); } want(o, {n, 2}, r, "value"); auto g = arb<T>({n, 2}); auto G = snap(g); e.backward(g); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < 2; ++j) { gb[j] += G[i * 2 + j]; for (u64 k = 0; k < 3; ++k) gw[k * 2 + j] += X[i * 3 + k] * G[i * 2 + j]; } want(w.gradient(), {3, 2}, gw, "gradient of the weights"); want(b.gradient(), {2}, gb, "gradient of the bias"); } }
