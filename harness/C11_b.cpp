#include "hist.hpp"
HARNESS(relu6) { hist([](auto const &x) { return relu6(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(softsign) { hist([](auto const &x) { return softsign(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(swish) { hist([](auto const &x) { return swish(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(exp) { hist([](auto const &x) { return exp(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(sin) { hist([](auto const &x) { return sin(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(cosh) { hist([](auto const &x) { return cosh(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(inverse) { hist([](auto const &x) { return inverse(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(leaky_relu) { hist([](auto const &x) { return leaky_relu(0.25)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(div_c) { hist([](auto const &x) { return x / 2.5; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(flatten) { hist([](auto const &x) { return flatten(expand_dims(1)(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(crelu) { hist([](auto const &x) { return crelu(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(sum) { hist([](auto const &x) { return sum_reduce(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(broadcast_sub) { hist([](auto const &x) { return x - mean_reduce(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(hyp) { hist([](auto const &x) { return hypot(x, x + 1.0); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(bn2) { hist([](auto const &x) { return normalization_batch(0.9)(x); }, {{2, 2}, {3, 2}, {1, 2, 2}}, false, 0, 0); }
HARNESS(avg_pool) { hist([](auto const &x) { return average_pooling_2d(2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(flip1) { hist([](auto const &x) { return flip(1)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(argmaxx) { hist([](auto const &x) { return argmax(1)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
