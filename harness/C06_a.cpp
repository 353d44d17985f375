// Tensor storage and rearrangement: copies, reshaping, joining, repeating, flipping.
// BOUND: tensors of one to four dimensions with up to 24 elements (one case of 12 rows), arbitrary entries; every valid axis and -1; repeat counts 1..3; broadcast targets from 9 listed pairs
// ASSUME: none beyond reading floating point values as reals (values are only moved)
// OUTSIDE: tensors with more than four dimensions; axes beyond the last one (rejected by an assertion)
#include "sym.hpp"
using namespace vh;
typedef double T;
static const std::vector<shp> SH{{3, 4}, {2, 3, 2}, {2, 2, 2, 3}, {11}, {1}, {1, 3, 1}};
inline shp pick() { return SH[sym_choose(0, SH.size() - 1)]; }
HARNESS(copy_share) { shp s = pick(); auto a = arb<T>(s); auto A = snap(a); tensor<T> b = a; auto c = a.deep_copy(); auto d = deep_copy(a); auto e = copy(a); auto f = a.copy(); tensor<T> g = arb<T>({5}); g.deep_copy(a); tensor<T> h; h = a;
  for (auto *q : {&b, &h}) want(*q, s, A, "copy"); want(tensor<T>(c), s, A, "deep copy"); want(tensor<T>(d), s, A, "deep copy"); want(tensor<T>(e), s, A, "copy()"); want(tensor<T>(f), s, A, "member copy()"); want(g, s, A, "deep_copy from");
  auto N = arb<T>(s); for (u64 i = 0; i < A.size(); ++i) a.data()[i] = N.data()[i]; auto B = snap(N);
  want(b, s, B, "a shallow copy shares the data"); want(h, s, B, "an assigned tensor shares the data"); want(tensor<T>(c), s, A, "a deep copy does not share"); want(tensor<T>(d), s, A, "a deep copy does not share"); want(tensor<T>(e), s, A, "copy() does not share"); want(tensor<T>(f), s, A, "copy() does not share"); want(g, s, A, "deep_copy from does not share");
  sym_assert(a.id() == b.id() && a.id() == h.id(), "copies have the id of the original"); sym_assert(c.id() != a.id() && g.id() != a.id() && d.id() != c.id(), "deep copies have ids of their own"); }
HARNESS(reshape) { auto a = arb<T>({2, 3, 4}); auto A = snap(a); std::vector<shp> to{{24}, {4, 6}, {3, 8}, {1, 2, 12}, {2, 2, 2, 3}, {24, 1}}; shp s = to[sym_choose(0, to.size() - 1)]; bool inf = sym_choose(0, 1); shp q = s; if (inf) q.back() = -1UL;
  tensor<T> b = a; auto r = b.reshape(q); want(b, s, A, "reshape"); want(tensor<T>(r), s, A, "result of reshape"); sym_assert(same_shape(a, {2, 3, 4}), "the shape of the other copy is unchanged"); want(ceras::reshape(tensor<T>(a), s), s, A, "reshape()"); want(a, {2, 3, 4}, A, "original"); }
HARNESS(resize) { auto a = arb<T>({2, 3}); auto A = snap(a); std::vector<shp> to{{6}, {3, 2}, {2, 2}, {4, 3}, {1}}; shp s = to[sym_choose(0, to.size() - 1)]; a.resize(s); sym_assert(same_shape(a, s), "shape"); sym_assert(a.size() == prod(s), "size"); if (prod(s) == 6) want(a, s, A, "same size: elements kept"); for (u64 i = 0; i < a.size(); ++i) a.data()[i] = T(i); sym_assert(a.end() - a.begin() == (long)a.size(), "range"); }
HARNESS(access) { shp s = pick(); auto a = arb<T>(s); auto A = snap(a); sym_assert(a.ndim() == s.size() && ndim(a) == s.size() && a.size() == A.size() && size(a) == A.size() && !a.empty() && !empty(a) && same_shape(shape(a), s), "geometry"); std::vector<T> f, r, k; for (auto x : a) f.push_back(x); for (auto it = a.rbegin(); it != a.rend(); ++it) r.push_back(*it); for (u64 i = 0; i < A.size(); ++i) k.push_back(a[i]);
  sym_eq(f.data(), A.data(), A.size(), "iteration"); std::vector<T> R(A.rbegin(), A.rend()); sym_assert(f.size() == A.size() && r.size() == A.size(), "count"); sym_eq(r.data(), R.data(), A.size(), "reverse iteration"); sym_eq(k.data(), A.data(), A.size(), "operator []"); auto q = a.as_type<float>(); sym_assert(same_shape(q, s), "as_type shape"); for (u64 i = 0; i < A.size(); ++i) { float w = A[i]; sym_eq(q.data() + i, &w, 1, "as_type"); } sym_assert((void *)q.data() != (void *)a.data(), "as_type copies"); tensor<T> e; sym_assert(e.empty() && e.size() == 0, "default tensor is empty"); }
HARNESS(init_list) { tensor<T> t{{2, 2}, {1.0, 2.0, 3.0, 4.0}}; want(t, {2, 2}, std::vector<T>{1, 2, 3, 4}, "initializer list"); shp s{3, 1}; tensor<T> u{s, {1.0, 2.0, 3.0}}; want(u, {3, 1}, std::vector<T>{1, 2, 3}, "initializer list"); }
HARNESS(squeeze) { std::vector<std::pair<shp, shp>> p{{{1, 3, 1}, {3}}, {{2, 1, 2, 1}, {2, 2}}, {{1, 1}, {1}}, {{3, 2}, {3, 2}}, {{1}, {1}}}; auto q = p[sym_choose(0, p.size() - 1)]; auto a = arb<T>(q.first); auto A = snap(a); want(squeeze(a), q.second, A, "squeeze"); want(squeeze(a, -1), q.second, A, "squeeze(-1)"); want(a, q.first, A, "kept"); for (u64 i = 0; i < q.first.size(); ++i) if (q.first[i] == 1 && q.first.size() > 1) { shp z = q.first; z.erase(z.begin() + i); want(squeeze(a, int(i)), z, A, "squeeze(axis)"); } want(a, q.first, A, "kept"); }
HARNESS(repeat) { shp s = pick(); u64 n = sym_choose(1, 3); auto a = arb<T>(s); auto A = snap(a); std::vector<T> r; for (u64 i = 0; i < n; ++i) r.insert(r.end(), A.begin(), A.end()); shp o = s; o.insert(o.begin(), n); want(repeat(a, n), o, r, "repeat"); want(a, s, A, "kept"); }
HARNESS(repmat) { u64 r = sym_choose(1, 3), c = sym_choose(1, 3), m = sym_choose(1, 3), n = sym_choose(1, 3); auto a = arb<T>({m, n}); auto A = snap(a); std::vector<T> o; for (u64 i = 0; i < m * r; ++i) for (u64 j = 0; j < n * c; ++j) o.push_back(A[(i % m) * n + j % n]); want(repmat(a, r, c), {m * r, n * c}, o, "repmat"); want(a, {m, n}, A, "kept"); }
inline std::vector<T> cat(std::vector<T> const &a, shp sa, std::vector<T> const &b, shp sb, u64 ax) { u64 pre = 1; for (u64 i = 0; i < ax; ++i) pre *= sa[i]; u64 la = a.size() / pre, lb = b.size() / pre; std::vector<T> o; for (u64 i = 0; i < pre; ++i) { o.insert(o.end(), a.begin() + i * la, a.begin() + (i + 1) * la); o.insert(o.end(), b.begin() + i * lb, b.begin() + (i + 1) * lb); } return o; }
HARNESS(concat) { shp s = pick(); u64 ax = sym_choose(0, s.size()), x = ax == s.size() ? s.size() - 1 : ax, e = sym_choose(1, 3); shp s2 = s; s2[x] = e; auto a = arb<T>(s), b = arb<T>(s2); auto A = snap(a), B = snap(b); shp o = s; o[x] += e; want(concatenate(a, b, ax == s.size() ? -1UL : ax), o, cat(A, s, B, s2, x), "concatenate"); want(concatenate(b, a, ax == s.size() ? -1UL : ax), o, cat(B, s2, A, s, x), "concatenate swapped"); want(a, s, A, "kept"); want(b, s2, B, "kept"); }
HARNESS(concat_align) { auto a = arb<T>({2, 3, 2}), b = arb<T>({3, 1}); auto A = snap(a), B = snap(b); std::vector<T> BB = B; BB.insert(BB.end(), B.begin(), B.end()); want(concatenate(a, b, 2), {2, 3, 3}, cat(A, {2, 3, 2}, BB, {2, 3, 1}, 2), "concatenate with a lower-dimensional tensor"); want(concatenate(b, a, -1UL), {2, 3, 3}, cat(BB, {2, 3, 1}, A, {2, 3, 2}, 2), "concatenate lower-dimensional first"); want(a, {2, 3, 2}, A, "kept"); want(b, {3, 1}, B, "kept"); }
HARNESS(flip) { shp s = pick(); u64 ax = sym_choose(0, s.size()), x = ax == s.size() ? s.size() - 1 : ax; auto a = arb<T>(s); auto A = snap(a); std::vector<T> o(A.size()); u64 post = 1; for (u64 i = x + 1; i < s.size(); ++i) post *= s[i]; for (u64 i = 0; i < A.size(); ++i) { u64 k = i / post % s[x]; o[i + (s[x] - 1 - k) * post - k * post] = A[i]; } want(flip(a, ax == s.size() ? -1 : int(ax)), s, o, "flip"); want(a, s, A, "kept"); tensor<T> r = arb<T>({2, 2}); flip(a, ax == s.size() ? -1 : int(ax), r); want(r, s, o, "flip into a used tensor"); }
HARNESS(bcast) { std::vector<std::pair<shp, shp>> p{{{3}, {2, 3}}, {{2, 1}, {2, 3}}, {{1, 3}, {2, 3}}, {{1}, {2, 3}}, {{2, 1, 2}, {2, 3, 2}}, {{2, 1, 1}, {2, 3, 2}}, {{1, 3, 1}, {2, 3, 2}}, {{2, 3}, {2, 3}}, {{2}, {1, 1, 2}}, {{9, 1}, {9, 2}}}; auto q = p[sym_choose(0, p.size() - 1)]; auto a = arb<T>(q.first); auto A = snap(a); shp o = q.second; std::vector<T> r; for (u64 f = 0; f < prod(o); ++f) { u64 off = 0, mul = 1, fl = f; for (u64 k = 0; k < o.size(); ++k) { u64 c = fl % o[o.size() - 1 - k]; fl /= o[o.size() - 1 - k]; if (k < q.first.size()) { u64 e = q.first[q.first.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } r.push_back(A[off]); } want(broadcast_tensor(a, o), o, r, "broadcast_tensor"); want(a, q.first, A, "kept"); }
