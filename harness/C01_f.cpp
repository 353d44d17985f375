#include "sym.hpp"
using namespace vh;
HARNESS(atan) { gradcheck<float>("atan", [](auto &a) { return atan(a); }, gv<float>({2,3})); }
HARNESS(erfc) { gradcheck<float>("erfc", [](auto &a) { return erfc(a); }, gv<float>({11})); }
HARNESS(log10) { gradcheck<float>("log10", [](auto &a) { return log10(a); }, gvb<float>({2,3}, 0.1, 9)); }
HARNESS(tan) { gradcheck<float>("tan", [](auto &a) { return tan(a); }, gvb<float>({11}, -1.4, 1.4)); }
HARNESS(gaussian) { gradcheck<float>("gaussian", [](auto &a) { return gaussian(a); }, gv<float>({2,3})); }
HARNESS(relu) { gradcheck<float>("relu", [](auto &a) { return relu(a); }, gv<float>({11})); }
HARNESS(swish) { gradcheck<float>("swish", [](auto &a) { return swish(a); }, gv<float>({2,3})); }
HARNESS(inverse) { gradcheck<double>("inverse", [](auto &a) { return inverse(a); }, gvb<double>({2,3}, 0.1, 9)); }
HARNESS(mul_c) { gradcheck<double>("mul_c", [](auto &a) { return a * 1.75; }, gv<double>({2,3})); }
HARNESS(clip_lo) { gradcheck<float>("clip_lo", [](auto &a) { return clip(0.5f)(a); }, gv<float>({5})); }
HARNESS(sub_val) { gradcheck<double>("sub_val", [](auto &a) { return value{2.5} - a; }, gv<double>({2,3})); }
