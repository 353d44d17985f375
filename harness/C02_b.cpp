#include "sym.hpp"
using namespace vh;
HARNESS(acosh) { typedef double T; auto q = gvb<T>({2,3}, 1.1, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = acosh(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::acosh(x)); want(o, q.s, ref, "acosh"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "acosh again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "acosh input kept"); }
HARNESS(ceil) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = ceil(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::ceil(x)); want(o, q.s, ref, "ceil"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "ceil again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "ceil input kept"); }
HARNESS(exp2) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = exp2(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::exp2(x)); want(o, q.s, ref, "exp2"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "exp2 again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "exp2 input kept"); }
HARNESS(log2) { typedef double T; auto q = gvb<T>({11}, 0.1, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = log2(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::log2(x)); want(o, q.s, ref, "log2"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "log2 again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "log2 input kept"); }
HARNESS(tanh) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = tanh(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::tanh(x)); want(o, q.s, ref, "tanh"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "tanh again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "tanh input kept"); }
HARNESS(lrint) { typedef double T; auto q = gvb<T>({2,3}, -100, 100); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = lrint(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(std::lrint(x))); want(o, q.s, ref, "lrint"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "lrint again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "lrint input kept"); }
HARNESS(uminus) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = -a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(-x); want(o, q.s, ref, "uminus"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "uminus again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "uminus input kept"); }
HARNESS(soft_sign) { typedef double T; auto q = gvb<T>({2,3,2}, -1, 1); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = soft_sign(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(1/(1+std::exp(-40*x))); want(o, q.s, ref, "soft_sign"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "soft_sign again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "soft_sign input kept"); }
HARNESS(relu) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = relu(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>0?x:T(0)); want(o, q.s, ref, "relu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "relu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "relu input kept"); }
HARNESS(exponential) { typedef double T; auto q = gvb<T>({3,4}, -9, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = exponential(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::exp(x)); want(o, q.s, ref, "exponential"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "exponential again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "exponential input kept"); }
HARNESS(mish) { typedef double T; auto q = gvb<T>({2,3}, -9, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = mish(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*std::tanh(std::log(1+std::exp(x)))); want(o, q.s, ref, "mish"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "mish again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "mish input kept"); }
HARNESS(sub_c) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a - 1.75; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x-T(1.75)); want(o, q.s, ref, "sub_c"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sub_c again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sub_c input kept"); }
HARNESS(v_add) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = value{1.75} + a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x+T(1.75)); want(o, q.s, ref, "v_add"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "v_add again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "v_add input kept"); }
HARNESS(clip_lo) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = clip(0.5)(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x<0.5?T(0.5):x); want(o, q.s, ref, "clip_lo"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "clip_lo again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "clip_lo input kept"); }
