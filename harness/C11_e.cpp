#include "hist.hpp"
HARNESS(tanh) { hist([](auto const &x) { return tanh(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(negative_relu) { hist([](auto const &x) { return negative_relu(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(gelu) { hist([](auto const &x) { return gelu(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(abs) { hist([](auto const &x) { return abs(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(asinh) { hist([](auto const &x) { return asinh(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(log1p) { hist([](auto const &x) { return log1p(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(acos) { hist([](auto const &x) { return acos(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, -0.9, 0.9); }
HARNESS(add_c) { hist([](auto const &x) { return x + 1.5; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(transpose) { hist([](auto const &x) { return transpose(transpose(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(minimum) { hist([](auto const &x) { return minimum(x, hadamard_product(x, x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(zeros) { hist([](auto const &x) { return zeros_like(x) - x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(rsum1) { hist([](auto const &x) { return reduce_sum(1)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(concat) { hist([](auto const &x) { return concat(x, sigmoid(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(gram2) { hist([](auto const &x) { return x * transpose(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(concat3) { hist([](auto const &x) { return concatenate(1)(x, square(x)); }, {{2, 1, 2}, {2, 2, 1}, {1, 2, 2}}, false, 0, 0); }
HARNESS(crop) { hist([](auto const &x) { return cropping_2d({1})(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(rmaxx) { hist([](auto const &x) { return reduce_max(2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
