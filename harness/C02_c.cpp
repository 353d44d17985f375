#include "sym.hpp"
using namespace vh;
HARNESS(asin) { typedef double T; auto q = gvb<T>({7}, -0.9, 0.9); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = asin(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::asin(x)); want(o, q.s, ref, "asin"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "asin again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "asin input kept"); }
HARNESS(cos) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = cos(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::cos(x)); want(o, q.s, ref, "cos"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "cos again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "cos input kept"); }
HARNESS(expm1) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = expm1(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::expm1(x)); want(o, q.s, ref, "expm1"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "expm1 again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "expm1 input kept"); }
HARNESS(round) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = round(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::round(x)); want(o, q.s, ref, "round"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "round again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "round input kept"); }
HARNESS(trunc) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = trunc(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(std::trunc(x)); want(o, q.s, ref, "trunc"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "trunc again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "trunc input kept"); }
HARNESS(lround) { typedef double T; auto q = gvb<T>({7}, -100, 100); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = lround(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(std::lround(x))); want(o, q.s, ref, "lround"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "lround again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "lround input kept"); }
HARNESS(uplus) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = +a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x); want(o, q.s, ref, "uplus"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "uplus again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "uplus input kept"); }
HARNESS(softsign) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = softsign(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x/(1+(x<0?-x:x))); want(o, q.s, ref, "softsign"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "softsign again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "softsign input kept"); }
HARNESS(relu6) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = relu6(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>6?T(6):x>0?x:T(0)); want(o, q.s, ref, "relu6"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "relu6 again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "relu6 input kept"); }
HARNESS(hard_sigmoid) { typedef double T; auto q = gv<T>({2,3}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = hard_sigmoid(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x>1?T(1):x<-1?T(0):(x+1)/2); want(o, q.s, ref, "hard_sigmoid"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "hard_sigmoid again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "hard_sigmoid input kept"); }
HARNESS(lisht) { typedef double T; auto q = gv<T>({7}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = lisht(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x*std::tanh(x)); want(o, q.s, ref, "lisht"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "lisht again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "lisht input kept"); }
HARNESS(c_sub) { typedef double T; auto q = gv<T>({2,3,2}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = 1.75 - a; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(1.75)-x); want(o, q.s, ref, "c_sub"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "c_sub again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "c_sub input kept"); }
HARNESS(sub_v) { typedef double T; auto q = gv<T>({11}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = a - value{1.75}; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(x-T(1.75)); want(o, q.s, ref, "sub_v"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "sub_v again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "sub_v input kept"); }
HARNESS(ones_like) { typedef double T; auto q = gv<T>({3,4}); auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = ones_like(a); auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back(T(1)); want(o, q.s, ref, "ones_like"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "ones_like again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "ones_like input kept"); }
