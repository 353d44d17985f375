#include "hist.hpp"
HARNESS(sigmoid) { hist([](auto const &x) { return sigmoid(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(selu) { hist([](auto const &x) { return selu(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(lisht) { hist([](auto const &x) { return lisht(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(exp2) { hist([](auto const &x) { return exp2(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(atan) { hist([](auto const &x) { return atan(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(log) { hist([](auto const &x) { return log(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(asin) { hist([](auto const &x) { return asin(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, -0.9, 0.9); }
HARNESS(prelu) { hist([](auto const &x) { return prelu(0.25)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(add_val) { hist([](auto const &x) { return x + value{2.5}; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(product) { hist([](auto const &x) { return hadamard_product(x, x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(ones) { hist([](auto const &x) { return ones_like(x) + x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(rsum0) { hist([](auto const &x) { return reduce_sum(0)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(expand_last) { hist([](auto const &x) { return expand_dims(-1)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(gram) { hist([](auto const &x) { return transpose(x) * x; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(reshape2) { hist([](auto const &x) { return reshape({2, 3}, false)(x); }, {{3, 2}, {1, 6}, {6}, {2, 3}}, false, 0, 0); }
HARNESS(zpad) { hist([](auto const &x) { return zero_padding_2d({1, 2, 1, 1})(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(rep2) { hist([](auto const &x) { return repeat(2, 2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
