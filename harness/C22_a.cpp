// Complex expressions: real, imag, abs, norm, conj, polar, arg and arithmetic, and their gradients.
// BOUND: square matrices of size 1 to 3 (products), tensors of shape (2), (2,3), (3,1) and (2,2,2) (element-wise), run on batches of two sizes; products of two or three factors, sums of products, mixed products with plain expressions on either side; all entries arbitrary
// ASSUME: floating point arithmetic is interpreted as real arithmetic; the gradient of abs away from zero
// OUTSIDE: other sizes and nestings; rounding
#include "C22_inc.hpp"
// ---- parts and magnitudes
HARNESS(parts) { cx(any, [](E) { (void)b; (void)e; return a; }, [](W) { return a; }); }
HARNESS(norm_) { rx(big, [](auto const &a) { return norm(a); }, [](V const &r, V const &i) { return add(had(r, r), had(i, i)); }); }
HARNESS(abs_) { rx({{2, 3}, {4, 1}}, [](auto const &a) { return abs(a); }, [](V const &r, V const &i) { return zip(r, i, [](T x, T y) { return std::sqrt(x * x + y * y); }); }); }
HARNESS(arg_) { rx(big, [](auto const &a) { return arg(a); }, [](V const &r, V const &i) { return zip(r, i, [](T x, T y) { return std::atan2(y, x); }); }); }
HARNESS(conj_) { cx(any, [](E) { return conj(a); }, [](W) { return cv{a.r, neg(a.i)}; }); }
HARNESS(polar_) { cx(any, [](E) { (void)b; (void)e; return polar(real(a), imag(a)); }, [](W) { return cv{zip(a.r, a.i, [](T m, T p) { return m * std::cos(p); }), zip(a.r, a.i, [](T m, T p) { return m * std::sin(p); })}; }); }
HARNESS(plus_) { cx(any, [](E) { return +a; }, [](W) { return a; }); }
HARNESS(minus_) { cx(any, [](E) { return -a; }, [](W) { return cv{neg(a.r), neg(a.i)}; }); }
// ---- arithmetic
HARNESS(add_cc) { cx(any, [](E) { return a + b; }, [](W) { return add(a, b); }); }
HARNESS(sub_cc) { cx(any, [](E) { return a - b; }, [](W) { return sub(a, b); }); }
HARNESS(add_big) { cx(big, [](E) { return (a + b) - conj(a); }, [](W) { return cv{b.r, add(b.i, add(a.i, a.i))}; }); }
HARNESS(add_ce) { cx(any, [](E) { return a + e; }, [](W) { return cv{add(a.r, e), a.i}; }); }
HARNESS(add_ec) { cx(any, [](E) { return e + a; }, [](W) { return cv{add(a.r, e), a.i}; }); }
HARNESS(sub_ce) { cx(any, [](E) { return a - e; }, [](W) { return cv{sub(a.r, e), a.i}; }); }
HARNESS(sub_ec) { cx(any, [](E) { return e - a; }, [](W) { return cv{sub(e, a.r), neg(a.i)}; }); }
// ---- gradients: both parts of the result, with respect to both parts of the operands
#define GRAD(name, body) HARNESS(g_re_##name) { gradcheck<T>("gradient of the real part", [](auto &p, auto &q, auto &r, auto &s, auto &e) { auto a = complex{p, q}, b = complex{r, s}; (void)a; (void)b; (void)e; return real(body) + real(a) + imag(a) + real(b) + imag(b) + e; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2})); } \
  HARNESS(g_im_##name) { gradcheck<T>("gradient of the imaginary part", [](auto &p, auto &q, auto &r, auto &s, auto &e) { auto a = complex{p, q}, b = complex{r, s}; (void)a; (void)b; (void)e; return imag(body) + real(a) + imag(a) + real(b) + imag(b) + e; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2})); }
GRAD(conj, conj(a))
GRAD(neg, -a)
GRAD(add, a + b)
GRAD(sub, a - b)
HARNESS(g_norm) { gradcheck<T>("gradient", [](auto &p, auto &q) { return norm(complex{p, q}); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(g_norm_mul) { gradcheck<T>("gradient", [](auto &p, auto &q, auto &r, auto &s) { return norm(complex{p, q} * complex{r, s}); }, gv<T>({1, 2}), gv<T>({1, 2}), gv<T>({2, 1}), gv<T>({2, 1})); }
HARNESS(g_abs) { gradcheck<T>("gradient", [](auto &p, auto &q) { return abs(complex{p, q}); }, gvb<T>({2, 2}, 0.5, 9), gvb<T>({2, 2}, -9, -0.5)); }
