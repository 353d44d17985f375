#include "sym.hpp"
using namespace vh;
HARNESS(atanh) { typedef double T; auto q = gvb<T>({3,4}, -0.9, 0.9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = atanh(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::atanh(x)); want(o, q.s, ref, "atanh"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "atanh again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "atanh input kept"); }
HARNESS(erfc) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = erfc(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::erfc(x)); want(o, q.s, ref, "erfc"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "erfc again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "erfc input kept"); }
HARNESS(log10) { typedef double T; auto q = gvb<T>({7}, 0.1, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = log10(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::log10(x)); want(o, q.s, ref, "log10"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "log10 again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "log10 input kept"); }
HARNESS(sqrt) { typedef double T; auto q = gvb<T>({2,3,2}, 0.1, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = sqrt(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::sqrt(x)); want(o, q.s, ref, "sqrt"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sqrt again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sqrt input kept"); }
HARNESS(llrint) { typedef double T; auto q = gvb<T>({11}, -100, 100); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = llrint(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(std::llrint(x))); want(o, q.s, ref, "llrint"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "llrint again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "llrint input kept"); }
HARNESS(square) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = square(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*x); want(o, q.s, ref, "square"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "square again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "square input kept"); }
HARNESS(inverse) { typedef double T; auto q = gvb<T>({2,3}, 0.001, 1000); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = inverse(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(1/x); want(o, q.s, ref, "inverse"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "inverse again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "inverse input kept"); }
HARNESS(softplus) { typedef double T; auto q = gvb<T>({7}, -9, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = softplus(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::log(1+std::exp(x))); want(o, q.s, ref, "softplus"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "softplus again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "softplus input kept"); }
HARNESS(prelu) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = prelu(0.125)(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>0?x:x/8); want(o, q.s, ref, "prelu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "prelu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "prelu input kept"); }
HARNESS(silu) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = silu(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x/(1+std::exp(-x))); want(o, q.s, ref, "silu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "silu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "silu input kept"); }
HARNESS(add_c) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a + 1.75; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x+T(1.75)); want(o, q.s, ref, "add_c"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "add_c again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "add_c input kept"); }
HARNESS(div_c) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a / 1.75; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x/T(1.75)); want(o, q.s, ref, "div_c"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "div_c again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "div_c input kept"); }
HARNESS(v_mul) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = value{1.75} * a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*T(1.75)); want(o, q.s, ref, "v_mul"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "v_mul again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "v_mul input kept"); }
