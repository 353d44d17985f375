#include "sym.hpp"
using namespace vh;
static const std::vector<shp> SH{{3, 4}, {2, 3, 2}, {11}, {1}};
inline shp pick() { return SH[sym_choose(0, SH.size() - 1)]; }
inline shp bshape(shp a, shp b) { while (a.size() < b.size()) a.insert(a.begin(), 1); while (b.size() < a.size()) b.insert(b.begin(), 1); for (u64 i = 0; i < a.size(); ++i) if (a[i] == 1) a[i] = b[i]; return a; }
inline u64 bidx(u64 flat, shp const &o, shp const &a) { u64 off = 0, mul = 1; for (u64 k = 0; k < o.size(); ++k) { u64 d = o.size() - 1 - k, c = flat % o[d]; flat /= o[d]; if (k < a.size()) { u64 e = a[a.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } return off; }
static const std::vector<std::pair<shp, shp>> PR{{{3, 4}, {3, 4}}, {{3, 4}, {4}}, {{4}, {3, 4}}, {{3, 4}, {3, 1}}, {{1, 4}, {3, 4}}, {{3, 1}, {1, 4}}, {{2, 1, 3}, {4, 1}}, {{2, 3, 2}, {3, 2}}, {{1}, {2, 3}}, {{9, 1}, {1, 2}}, {{10}, {10}}, {{3, 1}, {4}}, {{1, 1, 2}, {2, 2}}};
template <typename T, typename F, typename R> void bin(const char *l, F f, R r) { auto p = PR[sym_choose(0, PR.size() - 1)]; auto a = arb<T>(p.first), b = arb<T>(p.second); auto A = snap(a), B = snap(b); shp o = bshape(p.first, p.second);
  sym_assert(same_shape(broadcast_shape(p.first, p.second), o), "broadcast_shape"); std::vector<T> ref; for (u64 i = 0; i < prod(o); ++i) ref.push_back(r(A[bidx(i, o, p.first)], B[bidx(i, o, p.second)]));
  tensor<T> t = f(a, b); want(t, o, ref, l); sym_eq(a.data(), A.data(), A.size(), "left kept"); sym_eq(b.data(), B.data(), B.size(), "right kept"); sym_assert(same_shape(a, p.first) && same_shape(b, p.second), "operand shapes kept");
  t.data()[0] += 1; sym_eq(a.data(), A.data(), A.size(), "result is independent of the left operand"); sym_eq(b.data(), B.data(), B.size(), "result is independent of the right operand"); }
HARNESS(add) { bin<double>("add", [](auto &a, auto &b) { return a + b; }, [](auto x, auto y) { return x + y; }); }
HARNESS(add_f) { bin<float>("add", [](auto &a, auto &b) { return add(a, b); }, [](auto x, auto y) { return x + y; }); }
HARNESS(sub) { bin<double>("minus", [](auto &a, auto &b) { return a - b; }, [](auto x, auto y) { return x - y; }); }
HARNESS(sub_f) { bin<float>("minus", [](auto &a, auto &b) { return minus(a, b); }, [](auto x, auto y) { return x - y; }); }
HARNESS(prod) { bin<double>("elementwise_product", [](auto &a, auto &b) { return elementwise_product(a, b); }, [](auto x, auto y) { return x * y; }); }
HARNESS(prod_h) { bin<float>("hadamard_product", [](auto &a, auto &b) { return hadamard_product(a, b); }, [](auto x, auto y) { return x * y; }); }
HARNESS(divide) { typedef double T; shp s = pick(); auto a = arb<T>(s), b = arb<T>(s); auto A = snap(a), B = snap(b); for (T x : B) sym_assume(x != 0); std::vector<T> r; for (u64 i = 0; i < A.size(); ++i) r.push_back(A[i] / B[i]); want(elementwise_divide(a, b), s, r, "elementwise_divide"); a /= b; want(a, s, r, "/="); sym_eq(b.data(), B.data(), B.size(), "kept"); }
template <typename T, typename F, typename R> void sc(const char *l, F f, R r) { shp s = pick(); auto a = arb<T>(s); auto A = snap(a); T c; sym_fill(&c, 1); sym_assume(c != 0); std::vector<T> ref; for (T x : A) ref.push_back(r(x, c)); tensor<T> t = f(a, c); want(t, s, ref, l); if (t.data() != a.data()) sym_eq(a.data(), A.data(), A.size(), "operand kept"); }
HARNESS(s_add) { sc<double>("t + c", [](auto &a, auto c) { return a + c; }, [](auto x, auto c) { return x + c; }); sc<double>("c + t", [](auto &a, auto c) { return c + a; }, [](auto x, auto c) { return x + c; }); }
HARNESS(s_sub) { sc<double>("t - c", [](auto &a, auto c) { return a - c; }, [](auto x, auto c) { return x - c; }); sc<double>("c - t", [](auto &a, auto c) { return c - a; }, [](auto x, auto c) { return c - x; }); }
HARNESS(s_mul) { sc<double>("t * c", [](auto &a, auto c) { return a * c; }, [](auto x, auto c) { return x * c; }); sc<double>("c * t", [](auto &a, auto c) { return c * a; }, [](auto x, auto c) { return x * c; }); }
HARNESS(s_div) { sc<double>("t / c", [](auto &a, auto c) { return a / c; }, [](auto x, auto c) { return x / c; }); sc<float>("-t", [](auto &a, auto c) { return -a; }, [](auto x, auto c) { return -x; }); }
HARNESS(s_inplace) { sc<double>("+= c", [](auto &a, auto c) { return a += c; }, [](auto x, auto c) { return x + c; }); sc<double>("-= c", [](auto &a, auto c) { return a -= c; }, [](auto x, auto c) { return x - c; }); sc<double>("*= c", [](auto &a, auto c) { return a *= c; }, [](auto x, auto c) { return x * c; }); sc<double>("/= c", [](auto &a, auto c) { return a /= c; }, [](auto x, auto c) { return x / c; }); }
HARNESS(t_inplace) { typedef double T; shp s = pick(); auto b = arb<T>(s); auto B = snap(b); auto go = [&](const char *l, auto f, auto r) { auto a = arb<T>(s); auto A = snap(a); std::vector<T> ref; for (u64 i = 0; i < A.size(); ++i) ref.push_back(r(A[i], B[i])); f(a); want(a, s, ref, l); sym_eq(b.data(), B.data(), B.size(), "right kept"); };
  go("+=", [&](auto &a) { a += b; }, [](T x, T y) { return x + y; }); go("-=", [&](auto &a) { a -= b; }, [](T x, T y) { return x - y; }); go("*=", [&](auto &a) { a *= b; }, [](T x, T y) { return x * y; }); }
HARNESS(absclip) { typedef double T; shp s = pick(); auto a = arb<T>(s); auto A = snap(a); std::vector<T> r, c; for (T x : A) { r.push_back(x < 0 ? -x : x); c.push_back(x < -1 ? T(-1) : x > 2 ? T(2) : x); } want(abs(a), s, r, "abs"); sym_eq(a.data(), A.data(), A.size(), "kept"); want(clip(a, -1.0, 2.0), s, c, "clip"); }
HARNESS(map) { typedef double T; shp s = pick(); auto a = arb<T>(s); auto A = snap(a); std::vector<T> r; for (T x : A) r.push_back(x * x + 1); a.map([](auto &v) { v = v * v + 1; }); want(a, s, r, "map"); a.reset(T(3)); want(a, s, std::vector<T>(A.size(), T(3)), "reset"); }
HARNESS(softmax) { typedef double T; shp s = sym_choose(0, 1) ? shp{2, 3} : shp{3}; auto a = arb<T>(s); auto A = snap(a); for (T x : A) sym_assume(x > -9 && x < 9); std::vector<T> r; u64 n = 3; for (u64 i = 0; i < A.size(); ++i) { T z = 0; for (u64 k = 0; k < n; ++k) z += std::exp(A[i / n * n + k]); r.push_back(std::exp(A[i]) / z); } want(softmax(a), s, r, "softmax"); sym_eq(a.data(), A.data(), A.size(), "kept"); }
HARNESS(fills) { typedef double T; shp s = pick(); auto a = arb<T>(s); auto A = snap(a); u64 n = A.size(); want(ones<T>(s), s, std::vector<T>(n, 1), "ones"); want(zeros<T>(s), s, std::vector<T>(n, 0), "zeros"); want(ones_like(a), s, std::vector<T>(n, 1), "ones_like"); want(zeros_like(a), s, std::vector<T>(n, 0), "zeros_like"); T c; sym_fill(&c, 1); want(tensor<T>(s, c), s, std::vector<T>(n, c), "filled"); want(tensor<T>(s), s, std::vector<T>(n, 0), "new tensor"); want(as_tensor<T>(c), {1}, std::vector<T>{c}, "as_tensor"); T q = as_tensor<T>(c).as_scalar(); sym_eq(&q, &c, 1, "as_scalar"); sym_eq(a.data(), A.data(), n, "kept"); }
HARNESS(linspace) { typedef double T; T a, b; sym_fill(&a, 1); sym_fill(&b, 1); u64 n = sym_choose(2, 10); bool e = sym_choose(0, 1); std::vector<T> r; for (u64 i = 0; i < n; ++i) r.push_back(a + (b - a) * T(i) / T(e ? n - 1 : n)); want(linspace<T>(a, b, n, e), {n}, r, "linspace"); }
