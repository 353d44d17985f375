// BOUND: copies, repeats, concatenations, flips and reshapes of tensors of up to 1200 elements, axes of 40 and 300 elements; 5000 elements for some
#include "sym.hpp"
using namespace vh;
typedef double T;
static const std::vector<shp> SH{{300}, {3, 40, 5}, {40, 1, 9}, {70, 3}};
static shp pick() { return SH[sym_choose(0, SH.size() - 1)]; }
HARNESS(wide_copy) { shp s = pick(); auto a = arb<T>(s); auto A = snap(a); tensor<T> b = a; auto c = a.deep_copy(); auto e = copy(a); tensor<T> g{{5}}; g.deep_copy(a); want(b, s, A, "copy"); want(tensor<T>(c), s, A, "deep copy"); want(e, s, A, "copy()"); want(g, s, A, "deep_copy from"); auto q = a.as_type<float>(); std::vector<float> F(A.begin(), A.end()); want(q, s, F, "as_type"); for (auto &x : a) x = 1; want(tensor<T>(c), s, A, "a deep copy does not share"); want(g, s, A, "deep_copy from does not share"); want(e, s, A, "copy() does not share"); want(b, s, std::vector<T>(A.size(), 1), "a shallow copy shares the data"); }
HARNESS(wide_concat) { shp s = pick(); u64 x = sym_choose(0, s.size() - 1), e = sym_choose(0, 1) ? 33 : 1; shp s2 = s; s2[x] = e; auto a = arb<T>(s), b = arb<T>(s2); auto A = snap(a), B = snap(b); u64 pre = 1; for (u64 i = 0; i < x; ++i) pre *= s[i]; u64 la = A.size() / pre, lb = B.size() / pre; std::vector<T> o; for (u64 i = 0; i < pre; ++i) { o.insert(o.end(), A.begin() + i * la, A.begin() + (i + 1) * la); o.insert(o.end(), B.begin() + i * lb, B.begin() + (i + 1) * lb); } shp r = s; r[x] += e; want(concatenate(a, b, x), r, o, "concatenate"); want(a, s, A, "kept"); want(b, s2, B, "kept"); }
HARNESS(wide_repeat) { shp s = pick(); auto a = arb<T>(s); auto A = snap(a); u64 n = 17; std::vector<T> r; for (u64 i = 0; i < n; ++i) r.insert(r.end(), A.begin(), A.end()); shp o = s; o.insert(o.begin(), n); want(repeat(a, n), o, r, "repeat"); want(a, s, A, "kept"); auto m = arb<T>({3, 20}); auto M = snap(m); std::vector<T> w; for (u64 i = 0; i < 33; ++i) for (u64 j = 0; j < 60; ++j) w.push_back(M[i % 3 * 20 + j % 20]); want(repmat(m, 11, 3), {33, 60}, w, "repmat"); }
HARNESS(wide_flip) { shp s = pick(); u64 x = sym_choose(0, s.size() - 1); auto a = arb<T>(s); auto A = snap(a); std::vector<T> o(A.size()); u64 post = 1; for (u64 i = x + 1; i < s.size(); ++i) post *= s[i]; for (u64 i = 0; i < A.size(); ++i) { u64 k = i / post % s[x]; o[i + (s[x] - 1 - k) * post - k * post] = A[i]; } want(flip(a, int(x)), s, o, "flip"); want(a, s, A, "kept"); }
HARNESS(wide_reshape) { auto a = arb<T>({30, 40}); auto A = snap(a); std::vector<shp> to{{1200}, {2, 600}, {40, 30}, {4, 3, 100}, {300, 4}, {5, 8, 5, 6}}; shp s = to[sym_choose(0, to.size() - 1)], q = s; if (sym_choose(0, 1)) q.back() = -1UL; tensor<T> b = a; b.reshape(q); want(b, s, A, "reshape"); want(ceras::reshape(tensor<T>(a), s), s, A, "reshape()"); a.resize(s); want(a, s, A, "resize to the same size"); }
HARNESS(wide_broadcast) { std::vector<std::pair<shp, shp>> p{{{40}, {17, 40}}, {{33, 1}, {33, 20}}, {{1, 40}, {17, 40}}, {{9, 1, 3}, {9, 36, 3}}}; auto [i, o] = p[sym_choose(0, p.size() - 1)]; auto a = arb<T>(i); auto A = snap(a); shp k = i; while (k.size() < o.size()) k.insert(k.begin(), 1); std::vector<T> r; for (u64 f = 0; f < prod(o); ++f) { u64 off = 0, d = prod(o), g = f; for (u64 j = 0; j < o.size(); ++j) { d /= o[j]; u64 c = g / d; g %= d; off = off * k[j] + (k[j] == 1 ? 0 : c); } r.push_back(A[off]); } want(broadcast_tensor(a, o), o, r, "broadcast_tensor"); want(a, i, A, "kept"); }
HARNESS(wide_5000) { auto a = arb<T>({25, 200}); auto A = snap(a); auto c = a.deep_copy(), d = copy(a); want(tensor<T>(c), {25, 200}, A, "deep copy"); want(d, {25, 200}, A, "copy()"); auto b = a; b.reshape({5000}); want(b, {5000}, A, "reshape"); std::vector<T> w = A; w.insert(w.end(), A.begin(), A.end()); want(concatenate(a, a, 0), {50, 200}, w, "concatenate"); want(a, {25, 200}, A, "kept"); }
