#include "sym.hpp"
using namespace vh;
HARNESS(acosh) { gradcheck<double>("acosh", [](auto &a) { return acosh(a); }, gvb<double>({3}, 1.1, 9)); }
HARNESS(cos) { gradcheck<double>("cos", [](auto &a) { return cos(a); }, gv<double>({3,4})); }
HARNESS(expm1) { gradcheck<double>("expm1", [](auto &a) { return expm1(a); }, gvb<double>({3}, -9, 9)); }
HARNESS(sin) { gradcheck<double>("sin", [](auto &a) { return sin(a); }, gv<double>({3,4})); }
HARNESS(square) { gradcheck<double>("square", [](auto &a) { return square(a); }, gv<double>({3})); }
HARNESS(softplus) { gradcheck<double>("softplus", [](auto &a) { return softplus(a); }, gvb<double>({3,4}, -9, 9)); }
HARNESS(exponential) { gradcheck<double>("exponential", [](auto &a) { return exponential(a); }, gvb<double>({3}, -9, 9)); }
HARNESS(tank_shrink) { gradcheck<double>("tank_shrink", [](auto &a) { return tank_shrink(a); }, gv<double>({3,4})); }
HARNESS(c_add) { gradcheck<double>("c_add", [](auto &a) { return 1.75 + a; }, gv<double>({2,3})); }
HARNESS(uplus) { gradcheck<double>("uplus", [](auto &a) { return +a; }, gv<double>({2,3})); }
HARNESS(val_add) { gradcheck<double>("val_add", [](auto &a) { return a + value{2.5}; }, gv<double>({2,3})); }
HARNESS(elu) { gradcheck<float>("elu", [](auto &a) { return elu(1.5f)(a); }, gv<float>({3,4})); }
