#include "sym.hpp"
using namespace vh;
typedef double T;
HARNESS(left_silu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return silu(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_silu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + silu(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_silu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return silu(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_soft_sign) { gradcheck<T>("gradient", [](auto &x, auto &b) { return soft_sign(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_soft_sign) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + soft_sign(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_soft_sign) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return soft_sign(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_mish) { gradcheck<T>("gradient", [](auto &x, auto &b) { return mish(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_mish) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + mish(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_mish) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return mish(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_expm1) { gradcheck<T>("gradient", [](auto &x, auto &b) { return expm1(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_expm1) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + expm1(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_expm1) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return expm1(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_cos) { gradcheck<T>("gradient", [](auto &x, auto &b) { return cos(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_cos) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + cos(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_cos) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return cos(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_sqrt) { gradcheck<T>("gradient", [](auto &x, auto &b) { return sqrt(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_sqrt) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + sqrt(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_sqrt) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return sqrt(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_cbrt) { gradcheck<T>("gradient", [](auto &x, auto &b) { return cbrt(x) + b; }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(right_cbrt) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + cbrt(x); }, gvb<T>({2, 3}, 0.1, 4), gv<T>({2, 3})); }
HARNESS(shared_cbrt) { gradcheck<T>("gradient", [](auto &a) { auto x = negative(a); auto f = [](auto const &x) { return cbrt(x); }; return f(negative(x)) + x; }, gvb<T>({2, 3}, 0.1, 4)); }
HARNESS(left_elu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return elu(0.5)(x) + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_elu) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + elu(0.5)(x); }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_elu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return elu(0.5)(x) + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_val_mul) { gradcheck<T>("gradient", [](auto &x, auto &b) { return value{2.5} * x + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_val_mul) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + value{2.5} * x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_val_mul) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return value{2.5} * x + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(left_twice) { gradcheck<T>("gradient", [](auto &x, auto &b) { return x + x + b; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(right_twice) { gradcheck<T>("gradient", [](auto &x, auto &b) { return b + x + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
HARNESS(shared_twice) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto x = a - b; return x + x + x; }, gv<T>({2, 3}), gv<T>({2, 3})); }
