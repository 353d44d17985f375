// Backpropagation through graphs: sums of branches, shared subexpressions, shared variables, networks.
// BOUND: each of about sixty operators on 2x3 tensors of arbitrary entries as one branch of a sum whose other branch is a variable (either order) and as one of two consumers of a shared subexpression; listed graphs with shared nodes, shared weights and up to three layers; arbitrary upstream gradients
// ASSUME: floating point arithmetic is interpreted as real arithmetic; kinks are excluded
// OUTSIDE: graphs that are not listed; rounding
#include "sym.hpp"
using namespace vh;
typedef double T;
HARNESS(left_relu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return relu(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_relu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + relu(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_relu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return relu(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_softplus) { gradcheck<T>("gradient", [](auto &x, auto &b) { return softplus(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_softplus) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + softplus(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_softplus) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return softplus(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_exponential) { gradcheck<T>("gradient", [](auto &x, auto &b) { return exponential(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_exponential) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + exponential(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_exponential) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return exponential(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_gaussian) { gradcheck<T>("gradient", [](auto &x, auto &b) { return gaussian(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_gaussian) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + gaussian(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_gaussian) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return gaussian(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_negative) { gradcheck<T>("gradient", [](auto &x, auto &b) { return negative(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_negative) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + negative(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_negative) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return negative(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_sinh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return sinh(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_sinh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + sinh(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_sinh) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return sinh(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_log10) { gradcheck<T>("gradient", [](auto &x, auto &b) { return log10(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_log10) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + log10(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_log10) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return log10(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_clip) { gradcheck<T>("gradient", [](auto &x, auto &b) { return clip(-1.0, 1.0)(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_clip) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + clip(-1.0, 1.0)(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_clip) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return clip(-1.0, 1.0)(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_mul_c) { gradcheck<T>("gradient", [](auto &x, auto &b) { return x * 2.5 + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_mul_c) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + x * 2.5; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_mul_c) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return x * 2.5 + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_expand) { gradcheck<T>("gradient", [](auto &x, auto &b) { return squeeze(1)(expand_dims(1)(x)) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_expand) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + squeeze(1)(expand_dims(1)(x)); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_expand) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return squeeze(1)(expand_dims(1)(x)) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
