// BOUND: chains of 7 operators, a subexpression used 7 times, a tensor of 70 elements through 10 operators, 9 variables in one expression; fifty passes
#include "sym.hpp"
using namespace vh;
typedef double T;
template <typename X, typename Q> static void exact(X &e, std::vector<variable<tensor<T>>> vs, Q ref) { auto &s = get_default_session<tensor<T>>(); learning_phase = 1; for (int k = 0; k < 2; ++k) { tensor<T> o = s.run(e); std::vector<T> O; std::vector<std::vector<T>> G; auto g = arb<T>(o.shape()); ref(snap(g), O, G); want(o, o.shape(), O, "value"); e.backward(g); for (u64 i = 0; i < vs.size(); ++i) want(vs[i].gradient(), vs[i].data().shape(), G[i], "gradient"); } }
template <int N, typename X, typename Y> static auto chain(X x, Y y) { if constexpr (N == 0) return x; else if constexpr (N % 3 == 0) return chain<N - 1>(hadamard_product(x, y), y); else if constexpr (N % 3 == 1) return chain<N - 1>(x + y, y); else return chain<N - 1>(negative(x), y); }
template <int N, typename X, typename Y> static auto many(X x, Y y) { if constexpr (N == 1) return hadamard_product(x, y); else return many<N - 1>(x, y) + hadamard_product(x, y); }
HARNESS(wide_linear_chain) { auto tx = arb<T>({3}), ty = arb<T>({3}); auto A = snap(tx), Y = snap(ty); bool small = true; for (auto y : Y) small = small & (y > T(0)) & (y < T(1)); sym_assume(small); variable<tensor<T>> x{tx}; constant<tensor<T>> y{ty}; auto e = chain<7>(x, y);
  exact(e, {x}, [&](auto G, auto &O, auto &W) { std::vector<T> d; for (int i = 0; i < 3; ++i) { T v = A[i], g = 1; for (int n = 7; n > 0; --n) { if (n % 3 == 0) v = v * Y[i], g = g * Y[i]; else if (n % 3 == 1) v = v + Y[i]; else v = -v, g = -g; } O.push_back(v); d.push_back(g * G[i]); } W.push_back(d); }); }
HARNESS(wide_shared) { auto tx = arb<T>({2, 3}), ty = arb<T>({2, 3}); auto A = snap(tx), Y = snap(ty); variable<tensor<T>> x{tx}, y{ty}; auto h = x - y; auto e = many<7>(h, y); exact(e, {x, y}, [&](auto G, auto &O, auto &W) { std::vector<T> a, b; for (int i = 0; i < 6; ++i) O.push_back(7 * (A[i] - Y[i]) * Y[i]), a.push_back(7 * Y[i] * G[i]), b.push_back(7 * (A[i] - 2 * Y[i]) * G[i]); W = {a, b}; }); }
HARNESS(wide_elements) { auto tx = arb<T>({7, 10}), ty = arb<T>({10}); auto A = snap(tx), Y = snap(ty); variable<tensor<T>> x{tx}, y{ty}; auto e = many<3>(x, y) + chain<4>(x, y); exact(e, {x, y}, [&](auto G, auto &O, auto &W) { std::vector<T> a, b(10, T(0)); for (int i = 0; i < 70; ++i) { T c = Y[i % 10], v = A[i]; /* 4: x + y, 3: * y, 2: negative, 1: + y */ O.push_back(3 * v * c - (v + c) * c + c); a.push_back((3 * c - c) * G[i]); b[i % 10] += (3 * v - v - 2 * c + 1) * G[i]; } W = {a, b}; }); }
template <int N, typename V> static auto sum_of(V &v) { if constexpr (N == 0) return hadamard_product(v[0], v[1]); else return sum_of<N - 1>(v) + hadamard_product(v[N], v[(N + 1) % 9]); }
HARNESS(wide_variables) { std::vector<variable<tensor<T>>> v; std::vector<std::vector<T>> A; for (int i = 0; i < 9; ++i) { auto t = arb<T>({2}); A.push_back(snap(t)); v.push_back(variable<tensor<T>>{t}); } auto e = sum_of<8>(v); exact(e, v, [&](auto G, auto &O, auto &W) { O.assign(2, T(0)); for (int i = 0; i < 9; ++i) { std::vector<T> d; for (int k = 0; k < 2; ++k) O[k] += A[i][k] * A[(i + 1) % 9][k], d.push_back((A[(i + 8) % 9][k] + A[(i + 1) % 9][k]) * G[k]); W.push_back(d); } }); }
HARNESS(long_passes) { auto &s = get_default_session<tensor<T>>(); learning_phase = 1; auto tx = arb<T>({2, 2}), tb = arb<T>({2}); auto A = snap(tx), B = snap(tb); variable<tensor<T>> x{tx}, b{tb}; place_holder<tensor<T>> p; auto h = hadamard_product(x + b, p); auto e = h + hadamard_product(h, p); for (int k = 0; k < 50; ++k) { auto tp = arb<T>({2, 2}); auto P = snap(tp); s.bind(p, tp); tensor<T> o = s.run(e); std::vector<T> O, ga, gb(2, T(0)); auto g = arb<T>({2, 2}); for (int i = 0; i < 4; ++i) { T q = P[i] + P[i] * P[i]; O.push_back((A[i] + B[i % 2]) * q); ga.push_back(g.data()[i] * q); gb[i % 2] += ga[i]; } want(o, {2, 2}, O, "value of a later pass"); e.backward(g); want(x.gradient(), {2, 2}, ga, "gradient of a later pass"); want(b.gradient(), {2}, gb, "gradient of a later pass"); } }
