#include "sym.hpp"
using namespace vh;
typedef double T;
HARNESS(left_sigmoid) { gradcheck<T>("gradient", [](auto &x, auto &b) { return sigmoid(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_sigmoid) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + sigmoid(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_sigmoid) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return sigmoid(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_selu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return selu(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_selu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + selu(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_selu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return selu(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_lisht) { gradcheck<T>("gradient", [](auto &x, auto &b) { return lisht(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_lisht) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + lisht(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_lisht) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return lisht(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_exp2) { gradcheck<T>("gradient", [](auto &x, auto &b) { return exp2(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_exp2) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + exp2(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_exp2) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return exp2(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_atan) { gradcheck<T>("gradient", [](auto &x, auto &b) { return atan(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_atan) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + atan(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_atan) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return atan(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_log) { gradcheck<T>("gradient", [](auto &x, auto &b) { return log(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_log) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + log(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_log) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return log(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_asin) { gradcheck<T>("gradient", [](auto &x, auto &b) { return asin(x) + b; }, gvb<T>({2, 3}, -0.9, 0.9), gv<T>({2, 3})); }
HARNESS(right_asin) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + asin(x); }, gvb<T>({2, 3}, -0.9, 0.9), gv<T>({2, 3})); }
HARNESS(shared_asin) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return asin(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, -0.9, 0.9)); }
HARNESS(left_prelu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return prelu(0.25)(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_prelu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + prelu(0.25)(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_prelu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return prelu(0.25)(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_add_val) { gradcheck<T>("gradient", [](auto &x, auto &b) { return x + value{2.5} + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_add_val) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + x + value{2.5}; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_add_val) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return x + value{2.5} + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_product) { gradcheck<T>("gradient", [](auto &x, auto &b) { return hadamard_product(x, x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_product) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + hadamard_product(x, x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_product) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return hadamard_product(x, x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
