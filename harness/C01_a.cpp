// Gradients of the element-wise operators and activations.
// BOUND: every operator is evaluated once, forward and backward, on tensors of 3 to 12 elements (shapes (3), (2,3), (3,4)) of arbitrary real values inside the operator's domain, with an arbitrary upstream gradient
// ASSUME: floating point arithmetic is interpreted as real arithmetic; exp/log/sin/... are interpreted by their algebraic identities or as uninterpreted functions with their derivative; points where two compared quantities are equal (kinks) are excluded
// OUTSIDE: rounding, overflow, NaN; elements at kinks; ceil/floor/round-like operators, whose straight-through gradient is a convention
#include "sym.hpp"
using namespace vh;
HARNESS(abs) { gradcheck<double>("abs", [](auto &a) { return abs(a); }, gv<double>({3,4})); }
HARNESS(atanh) { gradcheck<double>("atanh", [](auto &a) { return atanh(a); }, gvb<double>({3}, -0.9, 0.9)); }
HARNESS(exp) { gradcheck<double>("exp", [](auto &a) { return exp(a); }, gvb<double>({3,4}, -9, 9)); }
HARNESS(log1p) { gradcheck<double>("log1p", [](auto &a) { return log1p(a); }, gvb<double>({3}, -0.9, 9)); }
HARNESS(tanh) { gradcheck<double>("tanh", [](auto &a) { return tanh(a); }, gv<double>({3,4})); }
HARNESS(softmax) { gradcheck<double>("softmax", [](auto &a) { return softmax(a); }, gv<double>({2,3})); }
HARNESS(relu6) { gradcheck<double>("relu6", [](auto &a) { return relu6(a); }, gv<double>({3,4})); }
HARNESS(silu) { gradcheck<double>("silu", [](auto &a) { return silu(a); }, gv<double>({2,3})); }
HARNESS(inverse_neg) { gradcheck<double>("inverse_neg", [](auto &a) { return inverse(a); }, gvb<double>({2,3}, -9, -0.1)); }
HARNESS(c_mul) { gradcheck<double>("c_mul", [](auto &a) { return 1.75 * a; }, gv<double>({2,3})); }
HARNESS(val_mul) { gradcheck<double>("val_mul", [](auto &a) { return a * value{2.5}; }, gv<double>({2,3})); }
HARNESS(leaky_relu) { gradcheck<float>("leaky_relu", [](auto &a) { return leaky_relu(0.25f)(a); }, gv<float>({3,4})); }
