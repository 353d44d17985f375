#include "sym.hpp"
using namespace vh;
typedef double T;
HARNESS(left_tanh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return tanh(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_tanh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + tanh(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_tanh) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return tanh(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_negative_relu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return negative_relu(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_negative_relu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + negative_relu(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_negative_relu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return negative_relu(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_gelu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return gelu(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_gelu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + gelu(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_gelu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return gelu(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_abs) { gradcheck<T>("gradient", [](auto &x, auto &b) { return abs(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_abs) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + abs(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_abs) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return abs(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_asinh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return asinh(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_asinh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + asinh(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_asinh) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return asinh(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_log1p) { gradcheck<T>("gradient", [](auto &x, auto &b) { return log1p(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_log1p) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + log1p(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_log1p) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return log1p(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_acos) { gradcheck<T>("gradient", [](auto &x, auto &b) { return acos(x) + b; }, gvb<T>({2, 3}, -0.9, 0.9), gv<T>({2, 3})); }
HARNESS(right_acos) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + acos(x); }, gvb<T>({2, 3}, -0.9, 0.9), gv<T>({2, 3})); }
HARNESS(shared_acos) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return acos(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, -0.9, 0.9)); }
HARNESS(left_add_c) { gradcheck<T>("gradient", [](auto &x, auto &b) { return x + 1.5 + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_add_c) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + x + 1.5; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_add_c) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return x + 1.5 + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_transpose) { gradcheck<T>("gradient", [](auto &x, auto &b) { return transpose(transpose(x)) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_transpose) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + transpose(transpose(x)); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_transpose) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return transpose(transpose(x)) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_minimum) { gradcheck<T>("gradient", [](auto &x, auto &b) { return minimum(x, hadamard_product(x, x)) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_minimum) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + minimum(x, hadamard_product(x, x)); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_minimum) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return minimum(x, hadamard_product(x, x)) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
