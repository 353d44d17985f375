#include "sym.hpp"
using namespace vh;
HARNESS(asinh) { gradcheck<double>("asinh", [](auto &a) { return asinh(a); }, gv<double>({3,4})); }
HARNESS(erf) { gradcheck<double>("erf", [](auto &a) { return erf(a); }, gv<double>({3})); }
HARNESS(log) { gradcheck<double>("log", [](auto &a) { return log(a); }, gvb<double>({3,4}, 0.1, 9)); }
HARNESS(sqrt) { gradcheck<double>("sqrt", [](auto &a) { return sqrt(a); }, gvb<double>({3}, 0.1, 9)); }
HARNESS(soft_sign) { gradcheck<double>("soft_sign", [](auto &a) { return soft_sign(a); }, gv<double>({3,4})); }
HARNESS(sigmoid) { gradcheck<double>("sigmoid", [](auto &a) { return sigmoid(a); }, gv<double>({3})); }
HARNESS(gelu) { gradcheck<double>("gelu", [](auto &a) { return gelu(a); }, gv<double>({3,4})); }
HARNESS(lisht) { gradcheck<double>("lisht", [](auto &a) { return lisht(a); }, gv<double>({3,3})); }
HARNESS(c_sub) { gradcheck<double>("c_sub", [](auto &a) { return 1.75 - a; }, gv<double>({2,3})); }
HARNESS(clip) { gradcheck<double>("clip", [](auto &a) { return clip(-1.0, 2.0)(a); }, gv<double>({3,4})); }
HARNESS(val_sub) { gradcheck<double>("val_sub", [](auto &a) { return a - value{2.5}; }, gv<double>({2,3})); }
