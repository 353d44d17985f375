// BOUND: broadcasts to 437 elements (19x23), to 2x1x3x1x2x2 (six dimensions) and along a dimension of 258
#include "sym.hpp"
using namespace vh;
typedef double T;
template <typename F, typename R> static void wide(F f, R r, shp a, shp b) { auto A = gv<T>(a), B = gv<T>(b); { auto &s = get_default_session<tensor<T>>(); variable<tensor<T>> x{from<T>(a, A.v)}, y{from<T>(b, B.v)}; auto e = f(x, y); tensor<T> o = s.run(e);
    u64 n = std::max(a.size(), b.size()); shp p(n - a.size(), 1), q(n - b.size(), 1), os; p.insert(p.end(), a.begin(), a.end()); q.insert(q.end(), b.begin(), b.end()); for (u64 i = 0; i < n; ++i) os.push_back(std::max(p[i], q[i])); std::vector<T> w;
    for (u64 k = 0; k < prod(os); ++k) { u64 i = 0, j = 0, m = k, P = 1; std::vector<u64> c(n); for (u64 d = n; d-- > 0;) { c[d] = m % os[d]; m /= os[d]; } for (u64 d = 0; d < n; ++d) { i = i * p[d] + (p[d] == 1 ? 0 : c[d]); j = j * q[d] + (q[d] == 1 ? 0 : c[d]); } (void)P; w.push_back(r(A.v[i], B.v[j])); }
    want(o, os, w, "value"); } gradcheck<T>("gradient", f, A, B); }
#define W(name, op, ...) HARNESS(wide_##name) { wide([](auto &x, auto &y) { return op; }, [](T x, T y) { return op; }, __VA_ARGS__); }
W(plus, x + y, {19, 1}, {1, 23}) W(minus, x - y, {19, 23}, {23}) W(plus_six, x + y, {2, 1, 3, 1, 2, 1}, {3, 2, 1, 2}) W(minus_long, x - y, {258, 2}, {1}) W(plus_long, x + y, {3, 1}, {258})
HARNESS(wide_product) { wide([](auto &x, auto &y) { return hadamard_product(x, y); }, [](T x, T y) { return x * y; }, {1, 23}, {19, 1}); }
HARNESS(wide_maximum) { wide([](auto &x, auto &y) { return maximum(x, y); }, [](T x, T y) { return x > y ? x : y; }, {7, 11}, {7, 11}); }
