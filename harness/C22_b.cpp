#include "C22_inc.hpp"
HARNESS(mul_cc) { cx(sq, [](E) { return a * b; }, [](W) { return mul(a, b); }); }
HARNESS(mul_cc3) { cx(sq3, [](E) { return a * b; }, [](W) { return mul(a, b); }); }
HARNESS(mul_aa) { cx(sq, [](E) { return a * a; }, [](W) { return mul(a, a); }); }
HARNESS(mul_conj) { cx(sq, [](E) { return a * conj(a); }, [](W) { return mul(a, cv{a.r, neg(a.i)}); }); }
HARNESS(mul_ce) { cx(sq3, [](E) { return a * e; }, [](W) { return mulr(a, e); }); }
HARNESS(mul_ec) { cx(sq3, [](E) { return e * a; }, [](W) { return rmul(e, a); }); }
HARNESS(mul_abc) { cx({{2, 2}}, [](E) { return e * a * b; }, [](W) { return mul(rmul(e, a), b); }); }
HARNESS(mul_acb) { cx({{2, 2}}, [](E) { return a * e * b; }, [](W) { return mul(mulr(a, e), b); }); }
HARNESS(mul_three) { cx(sq, [](E) { return a * b * a; }, [](W) { return mul(mul(a, b), a); }); }
HARNESS(mul_sum) { cx(sq, [](E) { return a * b + b * a; }, [](W) { return add(mul(a, b), mul(b, a)); }); }
HARNESS(mul_diff) { cx(sq, [](E) { return (a - e) * b - a; }, [](W) { return sub(mul(cv{sub(a.r, e), a.i}, b), a); }); }
HARNESS(mul_neg) { cx(sq, [](E) { return -(a * b); }, [](W) { auto m = mul(a, b); return cv{neg(m.r), neg(m.i)}; }); }
HARNESS(norm_mul) { auto &s = get_default_session<TT>(); place_holder<TT> p[4]; auto a = complex{p[0], p[1]}, b = complex{p[2], p[3]}; auto l = norm(a * b); auto r = hadamard_product(norm(a), norm(b)); TT t[4]; for (int k = 0; k < 4; k++) { t[k] = arb<T>({1, 1}); s.bind(p[k], t[k]); } TT x = s.run(l).deep_copy(), y = s.run(r).deep_copy(); sym_eq(x.data(), y.data(), 1, "|ab|^2 = |a|^2 |b|^2"); }
HARNESS(mul_row) { auto &s = get_default_session<TT>(); place_holder<TT> p[4]; auto a = complex{p[0], p[1]}, b = complex{p[2], p[3]}; auto c = a * b; auto re = real(c); auto im = imag(c); for (u64 m : {1ul, 3ul}) { TT t[4]; V v[4]; for (int k = 0; k < 4; k++) { t[k] = arb<T>(k < 2 ? shp{m, 2} : shp{2, 1}); v[k] = snap(t[k]); s.bind(p[k], t[k]); } V R, I; for (u64 i = 0; i < m; i++) { T r = 0, q = 0; for (u64 k = 0; k < 2; k++) { r += v[0][i * 2 + k] * v[2][k] - v[1][i * 2 + k] * v[3][k]; q += v[0][i * 2 + k] * v[3][k] + v[1][i * 2 + k] * v[2][k]; } R.push_back(r); I.push_back(q); } TT x = s.run(re).deep_copy(), y = s.run(im).deep_copy(); want(x, {m, 1}, R, "real part"); want(y, {m, 1}, I, "imaginary part"); } }
// ---- gradients: both parts of the result, with respect to both parts of the operands
#define GRAD(name, body) HARNESS(g_re_##name) { gradcheck<T>("gradient of the real part", [](auto &p, auto &q, auto &r, auto &s, auto &e) { auto a = complex{p, q}, b = complex{r, s}; (void)a; (void)b; (void)e; return real(body) + real(a) + imag(a) + real(b) + imag(b) + e; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2})); } \
  HARNESS(g_im_##name) { gradcheck<T>("gradient of the imaginary part", [](auto &p, auto &q, auto &r, auto &s, auto &e) { auto a = complex{p, q}, b = complex{r, s}; (void)a; (void)b; (void)e; return imag(body) + real(a) + imag(a) + real(b) + imag(b) + e; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2})); }
GRAD(mul, a * b)
GRAD(square, a * a)
