#include "sym.hpp"
using namespace vh;
typedef double T;
HARNESS(left_softmax) { gradcheck<T>("gradient", [](auto &x, auto &b) { return softmax(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_softmax) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + softmax(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_softmax) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return softmax(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_hard_sigmoid) { gradcheck<T>("gradient", [](auto &x, auto &b) { return hard_sigmoid(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_hard_sigmoid) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + hard_sigmoid(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_hard_sigmoid) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return hard_sigmoid(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_tank_shrink) { gradcheck<T>("gradient", [](auto &x, auto &b) { return tank_shrink(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_tank_shrink) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + tank_shrink(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_tank_shrink) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return tank_shrink(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_square) { gradcheck<T>("gradient", [](auto &x, auto &b) { return square(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_square) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + square(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_square) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return square(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_erf) { gradcheck<T>("gradient", [](auto &x, auto &b) { return erf(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_erf) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + erf(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_erf) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return erf(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_log2) { gradcheck<T>("gradient", [](auto &x, auto &b) { return log2(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_log2) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + log2(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_log2) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return log2(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_atanh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return atanh(x) + b; }, gvb<T>({2, 3}, -0.9, 0.9), gv<T>({2, 3})); }
HARNESS(right_atanh) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + atanh(x); }, gvb<T>({2, 3}, -0.9, 0.9), gv<T>({2, 3})); }
HARNESS(shared_atanh) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return atanh(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, -0.9, 0.9)); }
HARNESS(left_c_sub) { gradcheck<T>("gradient", [](auto &x, auto &b) { return 1.5 - x + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_c_sub) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + 1.5 - x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_c_sub) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return 1.5 - x + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_flip) { gradcheck<T>("gradient", [](auto &x, auto &b) { return flip(1)(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_flip) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + flip(1)(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_flip) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return flip(1)(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_maximum) { gradcheck<T>("gradient", [](auto &x, auto &b) { return maximum(x, x + x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_maximum) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + maximum(x, x + x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_maximum) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return maximum(x, x + x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
