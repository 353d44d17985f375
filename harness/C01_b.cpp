#include "sym.hpp"
using namespace vh;
HARNESS(acos) { gradcheck<float>("acos", [](auto &a) { return acos(a); }, gvb<float>({2,3}, -0.9, 0.9)); }
HARNESS(cbrt) { gradcheck<float>("cbrt", [](auto &a) { return cbrt(a); }, gv<float>({11})); }
HARNESS(exp2) { gradcheck<float>("exp2", [](auto &a) { return exp2(a); }, gvb<float>({2,3}, -9, 9)); }
HARNESS(log2) { gradcheck<float>("log2", [](auto &a) { return log2(a); }, gvb<float>({11}, 0.1, 9)); }
HARNESS(negative) { gradcheck<float>("negative", [](auto &a) { return negative(a); }, gv<float>({2,3})); }
HARNESS(selu) { gradcheck<float>("selu", [](auto &a) { return selu(a); }, gv<float>({11})); }
HARNESS(negative_relu) { gradcheck<float>("negative_relu", [](auto &a) { return negative_relu(a); }, gv<float>({2,3})); }
HARNESS(crelu) { gradcheck<float>("crelu", [](auto &a) { return crelu(a); }, gv<float>({2,2})); }
HARNESS(add_c) { gradcheck<double>("add_c", [](auto &a) { return a + 1.75; }, gv<double>({2,3})); }
HARNESS(div_c) { gradcheck<double>("div_c", [](auto &a) { return a / 1.75; }, gv<double>({2,3})); }
HARNESS(mul_val) { gradcheck<double>("mul_val", [](auto &a) { return value{2.5} * a; }, gv<double>({2,3})); }
HARNESS(prelu) { gradcheck<float>("prelu", [](auto &a) { return prelu(0.25f)(a); }, gv<float>({2,3})); }
