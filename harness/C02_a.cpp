// Values of the element-wise operators and activations (generated by gen_C02.py).
// BOUND: each operator is run twice on one tensor of 6 to 12 elements (shapes (3,4), (2,3), (7), (2,3,2), (11)) of arbitrary real values inside the operator's domain; every output element is compared with the mathematical definition, and the input tensor must be unchanged
// ASSUME: floating point arithmetic is interpreted as real arithmetic; std::exp, std::log, ... are interpreted by their algebraic identities or as uninterpreted functions shared by both sides
// OUTSIDE: rounding, overflow, NaN
#include "sym.hpp"
using namespace vh;
HARNESS(acos) { typedef double T; auto q = gvb<T>({3,4}, -0.9, 0.9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = acos(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::acos(x)); want(o, q.s, ref, "acos"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "acos again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "acos input kept"); }
HARNESS(cbrt) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = cbrt(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::cbrt(x)); want(o, q.s, ref, "cbrt"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "cbrt again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "cbrt input kept"); }
HARNESS(exp) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = exp(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::exp(x)); want(o, q.s, ref, "exp"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "exp again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "exp input kept"); }
HARNESS(log1p) { typedef double T; auto q = gvb<T>({2,3,2}, -0.9, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = log1p(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::log1p(x)); want(o, q.s, ref, "log1p"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "log1p again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "log1p input kept"); }
HARNESS(tan) { typedef double T; auto q = gvb<T>({11}, -1.4, 1.4); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = tan(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::tan(x)); want(o, q.s, ref, "tan"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "tan again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "tan input kept"); }
HARNESS(llround) { typedef double T; auto q = gvb<T>({3,4}, -100, 100); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = llround(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(std::llround(x))); want(o, q.s, ref, "llround"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "llround again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "llround input kept"); }
HARNESS(negative) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = negative(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(-x); want(o, q.s, ref, "negative"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "negative again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "negative input kept"); }
HARNESS(inverse_neg) { typedef double T; auto q = gvb<T>({7}, -1000, -0.001); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = inverse(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(1/x); want(o, q.s, ref, "inverse_neg"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "inverse_neg again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "inverse_neg input kept"); }
HARNESS(sigmoid) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = sigmoid(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(1/(1+std::exp(-x))); want(o, q.s, ref, "sigmoid"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sigmoid again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sigmoid input kept"); }
HARNESS(elu) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = elu(1.5)(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>0?x:T(1.5)*(std::exp(x)-1)); want(o, q.s, ref, "elu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "elu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "elu input kept"); }
HARNESS(tank_shrink) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = tank_shrink(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x-std::tanh(x)); want(o, q.s, ref, "tank_shrink"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "tank_shrink again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "tank_shrink input kept"); }
HARNESS(c_add) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = 1.75 + a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x+T(1.75)); want(o, q.s, ref, "c_add"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "c_add again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "c_add input kept"); }
HARNESS(add_v) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a + value{1.75}; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x+T(1.75)); want(o, q.s, ref, "add_v"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "add_v again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "add_v input kept"); }
HARNESS(clip) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = clip(-1.0, 2.0)(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x<-1?T(-1):x>2?T(2):x); want(o, q.s, ref, "clip"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "clip again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "clip input kept"); }
