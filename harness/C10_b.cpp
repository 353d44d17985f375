#include "sym.hpp"
using namespace vh;
typedef double T;
HARNESS(left_relu6) { gradcheck<T>("gradient", [](auto &x, auto &b) { return relu6(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_relu6) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + relu6(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_relu6) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return relu6(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_softsign) { gradcheck<T>("gradient", [](auto &x, auto &b) { return softsign(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_softsign) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + softsign(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_softsign) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return softsign(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_swish) { gradcheck<T>("gradient", [](auto &x, auto &b) { return swish(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_swish) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + swish(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_swish) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return swish(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_exp) { gradcheck<T>("gradient", [](auto &x, auto &b) { return exp(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_exp) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + exp(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_exp) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return exp(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_sin) { gradcheck<T>("gradient", [](auto &x, auto &b) { return sin(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_sin) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + sin(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_sin) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return sin(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_cosh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return cosh(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_cosh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + cosh(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_cosh) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return cosh(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_inverse) { gradcheck<T>("gradient", [](auto &x, auto &b) { return inverse(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_inverse) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + inverse(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_inverse) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return inverse(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_leaky_relu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return leaky_relu(0.25)(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_leaky_relu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + leaky_relu(0.25)(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_leaky_relu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return leaky_relu(0.25)(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_div_c) { gradcheck<T>("gradient", [](auto &x, auto &b) { return x / 2.5 + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_div_c) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + x / 2.5; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_div_c) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return x / 2.5 + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_flatten) { gradcheck<T>("gradient", [](auto &x, auto &b) { return flatten(expand_dims(1)(x)) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_flatten) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + flatten(expand_dims(1)(x)); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_flatten) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return flatten(expand_dims(1)(x)) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
