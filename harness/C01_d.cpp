#include "sym.hpp"
using namespace vh;
HARNESS(asin) { gradcheck<float>("asin", [](auto &a) { return asin(a); }, gvb<float>({11}, -0.9, 0.9)); }
HARNESS(cosh) { gradcheck<float>("cosh", [](auto &a) { return cosh(a); }, gvb<float>({2,3}, -9, 9)); }
HARNESS(fabs) { gradcheck<float>("fabs", [](auto &a) { return fabs(a); }, gv<float>({11})); }
HARNESS(sinh) { gradcheck<float>("sinh", [](auto &a) { return sinh(a); }, gvb<float>({2,3}, -9, 9)); }
HARNESS(identity) { gradcheck<float>("identity", [](auto &a) { return identity(a); }, gv<float>({11})); }
HARNESS(softsign) { gradcheck<float>("softsign", [](auto &a) { return softsign(a); }, gv<float>({2,3})); }
HARNESS(hard_sigmoid) { gradcheck<float>("hard_sigmoid", [](auto &a) { return hard_sigmoid(a); }, gv<float>({11})); }
HARNESS(mish) { gradcheck<float>("mish", [](auto &a) { return mish(a); }, gv<float>({3,3})); }
HARNESS(sub_c) { gradcheck<double>("sub_c", [](auto &a) { return a - 1.75; }, gv<double>({2,3})); }
HARNESS(uminus) { gradcheck<double>("uminus", [](auto &a) { return -a; }, gv<double>({2,3})); }
HARNESS(add_val) { gradcheck<double>("add_val", [](auto &a) { return value{2.5} + a; }, gv<double>({2,3})); }
