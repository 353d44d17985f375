#include "hist.hpp"
HARNESS(softmax) { hist([](auto const &x) { return softmax(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(hard_sigmoid) { hist([](auto const &x) { return hard_sigmoid(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(tank_shrink) { hist([](auto const &x) { return tank_shrink(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(square) { hist([](auto const &x) { return square(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(erf) { hist([](auto const &x) { return erf(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(log2) { hist([](auto const &x) { return log2(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(atanh) { hist([](auto const &x) { return atanh(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, -0.9, 0.9); }
HARNESS(c_sub) { hist([](auto const &x) { return 1.5 - x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(flip) { hist([](auto const &x) { return flip(1)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(maximum) { hist([](auto const &x) { return maximum(x, x + x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(sign) { hist([](auto const &x) { return sign(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(repeat0) { hist([](auto const &x) { return repeat(2, 0)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(concat0) { hist([](auto const &x) { return concatenate(0)(x, exp(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(eq) { hist([](auto const &x) { return equal(x, x, 0.5) + x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(rsum) { hist([](auto const &x) { return reduce_sum(-1)(x); }, {{4}, {2, 2}, {2, 1, 2}}, false, 0, 0); }
HARNESS(i2c) { hist([](auto const &x) { return img2col(2, 2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(rminx) { hist([](auto const &x) { return reduce_min(1)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
