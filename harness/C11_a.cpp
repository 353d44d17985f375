// What an expression computes depends only on what is bound now, not on earlier runs.
// BOUND: about ninety operators and compositions, each run and backpropagated twice (three times in thorough) on tensors of arbitrary entries whose shapes differ between the runs, with the same or another number of elements; compared with a fresh expression on the last binding; prediction in between for operators that distinguish it; losses and layers with weights
// ASSUME: floating point arithmetic is interpreted as real arithmetic
// OUTSIDE: dropout, which draws a mask, and running averages of batch normalisation (C15)
#include "hist.hpp"
HARNESS(relu) { hist([](auto const &x) { return relu(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(softplus) { hist([](auto const &x) { return softplus(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(exponential) { hist([](auto const &x) { return exponential(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(gaussian) { hist([](auto const &x) { return gaussian(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(negative) { hist([](auto const &x) { return negative(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(sinh) { hist([](auto const &x) { return sinh(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(log10) { hist([](auto const &x) { return log10(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, true, 0.1, 4); }
HARNESS(clip) { hist([](auto const &x) { return clip(-1.0, 1.0)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(mul_c) { hist([](auto const &x) { return x * 2.5; }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(expand) { hist([](auto const &x) { return squeeze(1)(expand_dims(1)(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(softplus2) { hist([](auto const &x) { return softplus(softplus(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(identity) { hist([](auto const &x) { return identity(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(repeat1) { hist([](auto const &x) { return repeat(2, 1)(x); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(sq_err) { hist([](auto const &x) { return mean_reduce(square(x - sigmoid(x))); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(atan2) { hist([](auto const &x) { return atan2(x, exp(x)); }, {{2, 3}, {3, 2}, {1, 2}, {3, 3}}, false, -1e9, 1e9); }
HARNESS(bn) { hist([](auto const &x) { return normalization_batch(0.9)(x); }, {{1, 4, 3, 1}, {2, 2, 2, 1}, {3, 1, 1, 1}, {5, 1}}, false, 0, 0); }
HARNESS(vec) { hist([](auto const &x) { return x + sum_reduce(x); }, {{4}, {2, 2}, {2, 1, 2}}, false, 0, 0); }
HARNESS(max_pool) { hist([](auto const &x) { return max_pooling_2d(2)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(i2c_s) { hist([](auto const &x) { return img2col(2, 1, 1, 0, 2, 1)(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
HARNESS(flat4) { hist([](auto const &x) { return flatten(x); }, {{1, 4, 3, 1}, {1, 3, 4, 1}, {2, 3, 3, 1}, {1, 3, 3, 2}}, false, 0, 0); }
