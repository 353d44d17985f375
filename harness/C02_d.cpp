#include "sym.hpp"
using namespace vh;
HARNESS(asinh) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = asinh(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::asinh(x)); want(o, q.s, ref, "asinh"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "asinh again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "asinh input kept"); }
HARNESS(cosh) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = cosh(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::cosh(x)); want(o, q.s, ref, "cosh"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "cosh again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "cosh input kept"); }
HARNESS(floor) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = floor(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::floor(x)); want(o, q.s, ref, "floor"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "floor again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "floor input kept"); }
HARNESS(sin) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = sin(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::sin(x)); want(o, q.s, ref, "sin"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sin again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sin input kept"); }
HARNESS(rint) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = rint(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::rint(x)); want(o, q.s, ref, "rint"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "rint again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "rint input kept"); }
HARNESS(abs) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = abs(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x<0?-x:x); want(o, q.s, ref, "abs"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "abs again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "abs input kept"); }
HARNESS(identity) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = identity(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x); want(o, q.s, ref, "identity"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "identity again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "identity input kept"); }
HARNESS(gaussian) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = gaussian(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::exp(-x*x)); want(o, q.s, ref, "gaussian"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "gaussian again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "gaussian input kept"); }
HARNESS(negative_relu) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = negative_relu(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>0?-x:T(0)); want(o, q.s, ref, "negative_relu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "negative_relu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "negative_relu input kept"); }
HARNESS(gelu) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = gelu(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x/2*(1+std::tanh(T(0.79788456080286535588)*(x+T(0.044715)*x*x*x)))); want(o, q.s, ref, "gelu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "gelu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "gelu input kept"); }
HARNESS(unit_step) { typedef double T; auto q = gvb<T>({2,3,2}, -1, 1); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = unit_step(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(1/(1+std::exp(-40*x))); want(o, q.s, ref, "unit_step"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "unit_step again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "unit_step input kept"); }
HARNESS(mul_c) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a * 1.75; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*T(1.75)); want(o, q.s, ref, "mul_c"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "mul_c again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "mul_c input kept"); }
HARNESS(v_sub) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = value{1.75} - a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(1.75)-x); want(o, q.s, ref, "v_sub"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "v_sub again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "v_sub input kept"); }
HARNESS(zeros_like) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = zeros_like(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(0)); want(o, q.s, ref, "zeros_like"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "zeros_like again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "zeros_like input kept"); }
