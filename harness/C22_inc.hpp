#include "sym.hpp"
using namespace vh;
typedef double T; typedef tensor<T> TT; typedef std::vector<T> V;
struct cv { V r, i; };
static u64 N;  // matrix size, 0: element-wise only
static V mm(V const &a, V const &b) { V r(N * N); for (u64 i = 0; i < N; i++) for (u64 j = 0; j < N; j++) { T s = 0; for (u64 k = 0; k < N; k++) s += a[i * N + k] * b[k * N + j]; r[i * N + j] = s; } return r; }
static V zip(V const &a, V const &b, auto f) { V r; for (u64 i = 0; i < a.size(); i++) r.push_back(f(a[i], b[i])); return r; }
static V add(V const &a, V const &b) { return zip(a, b, [](T x, T y) { return x + y; }); }
static V sub(V const &a, V const &b) { return zip(a, b, [](T x, T y) { return x - y; }); }
static V had(V const &a, V const &b) { return zip(a, b, [](T x, T y) { return x * y; }); }
static V neg(V const &a) { return zip(a, a, [](T x, T) { return -x; }); }
static cv mul(cv const &a, cv const &b) { return {sub(mm(a.r, b.r), mm(a.i, b.i)), add(mm(a.r, b.i), mm(a.i, b.r))}; }
static cv mulr(cv const &a, V const &b) { return {mm(a.r, b), mm(a.i, b)}; }
static cv rmul(V const &b, cv const &a) { return {mm(b, a.r), mm(b, a.i)}; }
static cv add(cv const &a, cv const &b) { return {add(a.r, b.r), add(a.i, b.i)}; }
static cv sub(cv const &a, cv const &b) { return {sub(a.r, b.r), sub(a.i, b.i)}; }
// an expression f over two complex numbers and a plain expression against g over the values, run twice with other values (and another batch) bound
template <class F, class G> static void cx(std::vector<shp> shapes, F f, G g) { auto &s = get_default_session<TT>(); place_holder<TT> p[5]; auto a = complex{p[0], p[1]}, b = complex{p[2], p[3]}; auto c = f(a, b, p[4]); auto re = real(c); auto im = imag(c);
  for (auto &q : shapes) { if (q.size() == 2 && q[0] == q[1]) N = q[0]; TT t[5]; V v[5]; for (int k = 0; k < 5; k++) { t[k] = arb<T>(q); v[k] = snap(t[k]); s.bind(p[k], t[k]); } cv w = g(cv{v[0], v[1]}, cv{v[2], v[3]}, v[4]);
    TT o = s.run(re).deep_copy(), u = s.run(im).deep_copy(), o2 = s.run(re).deep_copy(); want(o, q, w.r, "real part"); want(u, q, w.i, "imaginary part"); want(o2, q, w.r, "real part again"); for (int k = 0; k < 5; k++) sym_eq(t[k].data(), v[k].data(), v[k].size(), "operands kept"); } }
template <class F, class G> static void rx(std::vector<shp> shapes, F f, G g) { auto &s = get_default_session<TT>(); place_holder<TT> p[2]; auto a = complex{p[0], p[1]}; auto e = f(a);
  for (auto &q : shapes) { TT t[2]; V v[2]; for (int k = 0; k < 2; k++) { t[k] = arb<T>(q); v[k] = snap(t[k]); s.bind(p[k], t[k]); } TT o = s.run(e).deep_copy(); want(o, q, g(v[0], v[1]), "value"); for (int k = 0; k < 2; k++) sym_eq(t[k].data(), v[k].data(), v[k].size(), "operands kept"); } }
static std::vector<shp> const any{{2, 3}, {3, 3}}, sq{{2, 2}, {1, 1}}, sq3{{3, 3}, {2, 2}}, big{{3, 1}, {2, 2, 2}, {2}, {3, 4}};
#define E auto const &a, auto const &b, auto const &e
#define W cv const &a, cv const &b, V const &e
