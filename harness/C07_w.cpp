// BOUND: transposition of 37x41, concatenation of 3x40 with 3x260, flip of 5x130, reshape of 300 elements, zero padding of 2x9x17x2, repeat of 4x33
#include "mover.hpp"
using namespace vh;
typedef double T;
#define MV(name, F, R, ...) HARNESS(wide_##name) { mover<T>(#name, F, R, {__VA_ARGS__}, 1); }
MV(transpose, [](auto const &x) { return transpose(x); }, [](shp s) { return rmap({s[1], s[0]}, [=](auto c) { return flat({c[1], c[0]}, s); }); }, {37, 41})
MV(flip, flip(1), [](shp s) { return rmap(s, [=](auto c) { return flat({c[0], s[1] - 1 - c[1]}, s); }); }, {5, 130})
MV(reshape, (reshape({15, 4})), [](shp s) { return rmap({s[0], 15, 4}, [=](auto c) { return flat(c, {s[0], 15, 4}); }); }, {5, 60})
MV(repeat, (repeat(3, 1)), [](shp s) { return rmap({s[0], s[1] * 3}, [=](auto c) { return flat({c[0], c[1] / 3}, s); }); }, {4, 33})
MV(flatten, [](auto const &x) { return flatten(x); }, [](shp s) { return rmap({s[0], s[1] * s[2]}, [=](auto c) { return flat(c, {s[0], s[1] * s[2]}); }); }, {4, 20, 13})
MV(zero_pad, (zero_padding_2d({1, 2, 3, 4})), [](shp s) { return rmap({s[0], s[1] + 3, s[2] + 7, s[3]}, [=](auto c) -> long { if (c[1] < 1 || c[1] > s[1] || c[2] < 3 || c[2] >= s[2] + 3) return -1; return flat({c[0], c[1] - 1, c[2] - 3, c[3]}, s); }); }, {2, 9, 17, 2})
MV(up_sampling, up_sampling_2d(3), [](shp s) { return rmap({s[0], s[1] * 3, s[2] * 3, s[3]}, [=](auto c) { return flat({c[0], c[1] / 3, c[2] / 3, c[3]}, s); }); }, {2, 9, 11, 2})
HARNESS(wide_concatenate) { gradcheck<T>("gradient", [](auto &a, auto &b) { return concatenate(1)(a, b); }, gv<T>({3, 40}), gv<T>({3, 260})); auto &s = get_default_session<tensor<T>>(); auto a = arb<T>({3, 40}), b = arb<T>({3, 260}); variable<tensor<T>> x{a}, y{b}; auto e = concatenate(1)(x, y); tensor<T> o = s.run(e); std::vector<T> w; for (u64 i = 0; i < 3; ++i) { w.insert(w.end(), a.data() + 40 * i, a.data() + 40 * i + 40); w.insert(w.end(), b.data() + 260 * i, b.data() + 260 * i + 260); } want(o, {3, 300}, w, "value"); }
