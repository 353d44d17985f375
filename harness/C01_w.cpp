// BOUND: tensors of 260 elements for the operators listed in this file's harnesses (wide_*)
#include "sym.hpp"
using namespace vh;
HARNESS(wide_relu) { gradcheck<double>("relu", [](auto &a) { return relu(a); }, gv<double>({5, 4, 13})); }
HARNESS(wide_tanh) { gradcheck<double>("tanh", [](auto &a) { return tanh(a); }, gv<double>({260})); }
HARNESS(wide_exp) { gradcheck<float>("exp", [](auto &a) { return exp(a); }, gvb<float>({2, 130}, -9, 9)); }
HARNESS(wide_square) { gradcheck<double>("square", [](auto &a) { return square(a); }, gv<double>({260, 1})); }
HARNESS(wide_product) { gradcheck<double>("product", [](auto &a, auto &b) { return hadamard_product(a, b); }, gv<double>({5, 4, 13}), gv<double>({5, 4, 13})); }
HARNESS(wide_divide) { gradcheck<double>("divide", [](auto &a, auto &b) { return a / b; }, gv<double>({65, 2}), gvb<double>({65, 2}, 1, 9)); }
