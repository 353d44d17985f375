#include "C22_inc.hpp"
// ---- gradients: both parts of the result, with respect to both parts of the operands
#define GRAD(name, body) HARNESS(g_re_##name) { gradcheck<T>("gradient of the real part", [](auto &p, auto &q, auto &r, auto &s, auto &e) { auto a = complex{p, q}, b = complex{r, s}; (void)a; (void)b; (void)e; return real(body) + real(a) + imag(a) + real(b) + imag(b) + e; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2})); } \
  HARNESS(g_im_##name) { gradcheck<T>("gradient of the imaginary part", [](auto &p, auto &q, auto &r, auto &s, auto &e) { auto a = complex{p, q}, b = complex{r, s}; (void)a; (void)b; (void)e; return imag(body) + real(a) + imag(a) + real(b) + imag(b) + e; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 2})); }
GRAD(mul_e, a * e)
GRAD(e_mul, e * a)
GRAD(sub_e, a - e)
GRAD(e_sub, e - a)
GRAD(add_e, a + e)
GRAD(e_add, e + a)
GRAD(mul_conj, a * conj(b))
GRAD(polar, polar(real(a), imag(a)))
