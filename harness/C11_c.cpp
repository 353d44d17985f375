#include "hist.hpp"
HARNESS(silu) { hist([](auto const &x) { return silu(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(soft_sign) { hist([](auto const &x) { return soft_sign(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(mish) { hist([](auto const &x) { return mish(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(expm1) { hist([](auto const &x) { return expm1(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(cos) { hist([](auto const &x) { return cos(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(sqrt) { hist([](auto const &x) { return sqrt(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(cbrt) { hist([](auto const &x) { return cbrt(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(elu) { hist([](auto const &x) { return elu(0.5)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(val_mul) { hist([](auto const &x) { return value{2.5} * x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(twice) { hist([](auto const &x) { return x + x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(flatten2) { hist([](auto const &x) { return flatten(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(mean) { hist([](auto const &x) { return mean_reduce(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(transposed) { hist([](auto const &x) { return transpose(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(div) { hist([](auto const &x) { return x / (exp(x) + 1.0); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(reshape) { hist([](auto const &x) { return reshape({3, 1})(x); }, {{2, 3}, {1, 3}, {3, 3}}, false, 0, 0); }
HARNESS(up) { hist([](auto const &x) { return up_sampling_2d(2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(flip2) { hist([](auto const &x) { return flip(2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(argminx) { hist([](auto const &x) { return argmin(2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
