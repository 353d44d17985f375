#include "sym.hpp"
using namespace vh;
HARNESS(atan) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = atan(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::atan(x)); want(o, q.s, ref, "atan"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "atan again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "atan input kept"); }
HARNESS(erf) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = erf(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::erf(x)); want(o, q.s, ref, "erf"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "erf again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "erf input kept"); }
HARNESS(log) { typedef double T; auto q = gvb<T>({2,3}, 0.1, 9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = log(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::log(x)); want(o, q.s, ref, "log"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "log again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "log input kept"); }
HARNESS(sinh) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = sinh(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::sinh(x)); want(o, q.s, ref, "sinh"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sinh again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sinh input kept"); }
HARNESS(nearbyint) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = nearbyint(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::nearbyint(x)); want(o, q.s, ref, "nearbyint"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "nearbyint again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "nearbyint input kept"); }
HARNESS(fabs) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = fabs(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x<0?-x:x); want(o, q.s, ref, "fabs"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "fabs again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "fabs input kept"); }
HARNESS(sign) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = sign(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>0?T(1):x<0?T(-1):T(0)); want(o, q.s, ref, "sign"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sign again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sign input kept"); }
HARNESS(selu) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = selu(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>=0?T(1.0507)*x:T(1.0507)*T(1.67326)*(std::exp(x)-1)); want(o, q.s, ref, "selu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "selu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "selu input kept"); }
HARNESS(leaky_relu) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = leaky_relu(0.25)(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>0?x:x/4); want(o, q.s, ref, "leaky_relu"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "leaky_relu again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "leaky_relu input kept"); }
HARNESS(swish) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = swish(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x/(1+std::exp(-x))); want(o, q.s, ref, "swish"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "swish again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "swish input kept"); }
HARNESS(binary_step) { typedef double T; auto q = gvb<T>({11}, -1, 1); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = binary_step(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(1/(1+std::exp(-40*x))); want(o, q.s, ref, "binary_step"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "binary_step again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "binary_step input kept"); }
HARNESS(c_mul) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = 1.75 * a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*T(1.75)); want(o, q.s, ref, "c_mul"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "c_mul again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "c_mul input kept"); }
HARNESS(mul_v) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a * value{1.75}; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*T(1.75)); want(o, q.s, ref, "mul_v"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "mul_v again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "mul_v input kept"); }
