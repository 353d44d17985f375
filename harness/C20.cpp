// BOUND: address arithmetic of view_1d, view_2d, view_3d, view_4d and view<T,1..6>: all dimensions and indices are free 64-bit values (view<T,5> and view<T,6>: indices below dimensions of at most 1000); contents: arrays of up to 24 elements of arbitrary doubles
// BOUND: stride_iterator: free 64-bit base offset and advance, steps 1 to 9 and -3; comparisons and distances within an array of 40 elements, also with steps -1, -2 and -4
// BOUND: range: free first value, up to 6 steps, default and custom step and end functions; enumerate and reverse over up to 6 arbitrary elements; make_list with up to 4 values
// BOUND: identities: up to 6 place_holders / variables / operators created, copied, moved and assigned in an arbitrary order of 4 or 5 actions
// OUTSIDE: const view_2d iteration (does not compile when instantiated), list/car/cdr (do not compile when instantiated)
#include "sym.hpp"
#include "utils/enumerate.hpp"
#include "utils/reverse.hpp"
#include "utils/list.hpp"
using namespace vh;
static u64 fr(u64 hi = ~0ul) { return sym_u64(0, hi); }
template <class P> static u64 off(P *p, double *b) { return (u64)p - (u64)b; }
static void at(u64 got, u64 want_, const char *l) { sym_assert(got == want_ * 8, l); }
HARNESS(v1_addr) { double b[1]; view_1d<double> v{b, fr()}; u64 i = fr(); at(off(&v[i], b), i, "view_1d element"); auto const &c = v; at(off(&c[i], b), i, "const view_1d element"); view<double, 1> w; w.data = b; w.dims = fr(); at(off(&w[i], b), i, "view<T,1> element"); }
HARNESS(v2_addr) { double b[1]; u64 R = fr(), C = fr(), i = fr(), j = fr(); view_2d<double> v{b, R, C}; at(off(&v[i][j], b), i * C + j, "row-major element"); auto const &c = v; at(off(&c[i][j], b), i * C + j, "const row-major element");
  view_2d<double> t{b, R, C, true}; at(off(&t[i][j], b), i * R + j, "transposed: rows of length row()"); auto const &tc = t; at(off(&tc[i][j], b), i * R + j, "const transposed: rows of length row()");
  sym_assert(v.row() == R && v.col() == C && v.size() == R * C && v.shape().first == R && v.shape().second == C, "extents"); sym_assert(v.data() == b && v.begin() == b, "data"); at(off(const_cast<double *>(v.row_begin(i)), b), i * C, "row_begin"); at(off(const_cast<double *>(v.row_end(i)), b), (i + 1) * C, "row_end"); at(off(&*v.col_begin(j), b), j, "col_begin");
  view<double, 2> w{b, R, C}; at(off(&w[i][j], b), i * C + j, "view<T,2> element"); view_2d<double> k{(double const *)b, R, C}; at(off(&k[i][j], b), i * C + j, "view of const data"); }
HARNESS(v3_addr) { double b[1]; u64 R = fr(), C = fr(), D = fr(), i = fr(), j = fr(), k = fr(); view_3d<double> v{b, R, C, D}; at(off(&v[i][j][k], b), (i * C + j) * D + k, "element"); auto const &c = v; at(off(&c[i][j][k], b), (i * C + j) * D + k, "const element"); view<double, 3> w{b, R, C, D}; at(off(&w[i][j][k], b), (i * C + j) * D + k, "view<T,3> element"); auto s = v[i]; sym_assert(s.row() == C && s.col() == D, "extents of a slice"); }
HARNESS(v4_addr) { double b[1]; u64 N = fr(), R = fr(), C = fr(), D = fr(), n = fr(), i = fr(), j = fr(), k = fr(), want_ = ((n * R + i) * C + j) * D + k; view_4d<double> v{b, N, R, C, D}; at(off(&v[n][i][j][k], b), want_, "element"); auto const &c = v; at(off(&c[n][i][j][k], b), want_, "const element");
  view<double, 4> w{b, std::array<unsigned long, 4>{{N, R, C, D}}}; at(off(&w[n][i][j][k], b), want_, "view<T,4> element"); sym_assert(w.batch_size_ == N && w.row_ == R && w.col_ == C && w.channel_ == D, "extents"); }
HARNESS(v5_addr) { double b[1]; u64 s[5], x[5]; for (int q = 0; q < 5; q++) { s[q] = fr(1000); x[q] = fr(1000); sym_assume(x[q] < s[q]); } view<double, 5> v{b, std::array<unsigned long, 5>{{s[0], s[1], s[2], s[3], s[4]}}}; u64 w = 0; for (int q = 0; q < 5; q++) w = w * s[q] + x[q]; at(off(&v[x[0]][x[1]][x[2]][x[3]][x[4]], b), w, "element"); auto const &c = v; at(off(&c[x[0]][x[1]][x[2]][x[3]][x[4]], b), w, "const element"); }
HARNESS(v6_addr) { double b[1]; u64 s[6], x[6]; for (int q = 0; q < 6; q++) { s[q] = fr(1000); x[q] = fr(1000); sym_assume(x[q] < s[q]); } view<double, 6> v{b, std::array<unsigned long, 6>{{s[0], s[1], s[2], s[3], s[4], s[5]}}}; u64 w = 0; for (int q = 0; q < 6; q++) w = w * s[q] + x[q]; at(off(&v[x[0]][x[1]][x[2]][x[3]][x[4]][x[5]], b), w, "element"); }
HARNESS(v5_range) { double b[1]; u64 s = fr(1000), x = fr(); sym_abort(1); sym_assume(x >= s); view<double, 5> v{b, std::array<unsigned long, 5>{{s, 2, 2, 2, 2}}}; (void)v[x]; sym_assert(false, "an index beyond the first dimension is rejected"); }
HARNESS(v2_columns) { u64 R = sym_choose(1, 4), C = sym_choose(1, 5); auto a = arb<double>({R, C}); auto A = snap(a); view_2d<double> v{a, R, C};
  for (u64 j = 0; j < C; j++) { u64 i = 0; for (auto it = v.col_begin(j); it != v.col_end(j); ++it, ++i) { double x = *it; sym_eq(&x, &A[i * C + j], 1, "column element"); } sym_assert(i == R, "column length"); sym_assert((u64)(v.col_end(j) - v.col_begin(j)) == R, "column distance"); }
  for (u64 i = 0; i < R; i++) { u64 j = 0; for (auto it = v.row_begin(i); it != v.row_end(i); ++it, ++j) { double x = *it; sym_eq(&x, &A[i * C + j], 1, "row element"); } sym_assert(j == C, "row length"); }
  u64 j = sym_choose(0, C - 1); std::vector<double> w = A; for (u64 i = 0; i < R; i++) w[i * C + j] = A[i * C + j] * 2; for (auto it = v.col_begin(j); it != v.col_end(j); it++) *it = *it * 2; sym_eq(a.data(), w.data(), R * C, "writes through a column"); }
// ---- stride_iterator
HARNESS(stride_addr) { double b[1]; long st = (long)sym_choose(0, 9); if (st == 0) st = -3; u64 o = fr(1ul << 40), n = fr(1ul << 40); double *p = (double *)((u64)b + o * 8); stride_iterator<double *> it{p, st}; auto adr = [&](stride_iterator<double *> const &x) { return (u64) & *x - (u64)p; };
  sym_assert(adr(it + (long)n) == n * 8 * (u64)st, "it + n"); sym_assert(adr((long)n + it) == n * 8 * (u64)st, "n + it"); sym_assert(adr(it - (long)n) == -(n * 8 * (u64)st), "it - n"); sym_assert((u64)&it[(long)n] - (u64)p == n * 8 * (u64)st, "it[n]");
  auto k = it; auto o1 = k++; sym_assert(adr(o1) == 0 && adr(k) == 8 * (u64)st, "it++"); auto o2 = ++k; sym_assert(adr(o2) == 16 * (u64)st && adr(k) == 16 * (u64)st, "++it"); auto o3 = k--; sym_assert(adr(o3) == 16 * (u64)st && adr(k) == 8 * (u64)st, "it--"); auto o4 = --k; sym_assert(adr(o4) == 0 && adr(k) == 0, "--it"); k += (long)n; sym_assert(adr(k) == n * 8 * (u64)st, "it += n"); k -= (long)n; sym_assert(adr(k) == 0, "it -= n"); auto const &ck = k; sym_assert((u64)&ck[(long)n] - (u64)p == n * 8 * (u64)st, "const it[n]"); }
HARNESS(stride_order) { double b[40]; static const long ST[] = {1, 2, 3, 4, -1, -2, -4}; long st = ST[sym_choose(0, 6)]; u64 i = sym_choose(0, 8), j = sym_choose(0, 8); stride_iterator<double *> p{st < 0 ? b + 36 : b, st}, x = p + (long)i, y = p + (long)j; sym_assert((x == y) == (i == j), "=="); sym_assert((x != y) == (i != j), "!="); sym_assert((x < y) == (i < j), "<"); sym_assert((x <= y) == (i <= j), "<="); sym_assert((x > y) == (i > j), ">"); sym_assert((x >= y) == (i >= j), ">="); sym_assert(x - y == (long)i - (long)j, "distance"); sym_assert(y + (x - y) == x, "y + (x - y) is x"); sym_assert(std::distance(y, x) == (long)i - (long)j, "std::distance"); }
HARNESS(stride_backwards) { u64 n = sym_choose(1, 5); long st = (long)sym_choose(1, 3); std::vector<double> a(n * st), w; fin(a); w = a; stride_iterator<double *> f{a.data() + (n - 1) * st, -st}, l = f + (long)n; sym_assert(l - f == (long)n && std::distance(f, l) == (long)n, "distance"); u64 k = 0; for (auto it = f; it < l; ++it, ++k) sym_eq(&*it, &w[(n - 1 - k) * st], 1, "element"); sym_assert(k == n, "every element once"); std::vector<double> c(n); std::copy(f, l, c.begin()); for (u64 i = 0; i < n; i++) sym_eq(&c[i], &w[(n - 1 - i) * st], 1, "copied backwards"); }
HARNESS(stride_algorithms) { u64 n = sym_choose(1, 5), st = sym_choose(1, 3); std::vector<double> a(n * st), w; fin(a); w = a; stride_iterator<double *> f{a.data(), st}, l = f + (long)n; double s = std::accumulate(f, l, 0.0), r = 0; for (u64 i = 0; i < n; i++) r += w[i * st]; sym_eq(&s, &r, 1, "accumulate"); std::reverse(f, l); for (u64 i = 0; i < n; i++) sym_eq(&a[i * st], &w[(n - 1 - i) * st], 1, "reverse"); for (u64 i = 0; i < n * st; i++) if (i % st) sym_eq(&a[i], &w[i], 1, "elements between the strides are kept"); }
// ---- range, enumerate, reverse, list
template <class T> static void rng() { T a = (T)sym_u64(0, 200); u64 n = sym_choose(0, 6); sym_assume((u64)a + n <= 255); T b = (T)(a + (T)n); u64 k = 0; for (auto x : range(a, b)) { sym_assert(x == (T)(a + (T)k), "k-th value"); k++; if (k > n) break; } sym_assert(k == n, "number of values");
  auto r = range(a, b); auto it = r.begin(); it += n; sym_assert(it == r.end() && !(it != r.end()), "begin + n is end"); if (n) { u64 m = sym_choose(0, n - 1); sym_assert(*(r.begin() + m) == (T)(a + (T)m) && *(m + r.begin()) == (T)(a + (T)m), "*(begin + m)"); auto q = r.cbegin(); auto old = q++; sym_assert(*old == a && *q == (T)(a + 1), "it++"); auto nw = ++q; sym_assert(*nw == (T)(a + 2) && *q == (T)(a + 2), "++it"); } }
HARNESS(range_ulong) { rng<unsigned long>(); }
HARNESS(range_int) { rng<int>(); }
HARNESS(range_uchar) { rng<unsigned char>(); }
HARNESS(range_one) { u64 n = sym_choose(0, 6), k = 0; for (auto x : range(n)) { sym_assert(x == k, "k-th value"); if (++k > n) break; } sym_assert(k == n, "number of values"); }
HARNESS(range_step) { u64 n = sym_choose(0, 5), k = 0; long a = (long)sym_u64(0, 1000), st = (long)sym_u64(1, 9); for (auto x : range(a, a + (long)n * st, [st](long v) { return v + st; })) { sym_assert(x == a + (long)k * st, "k-th value"); if (++k > n) break; } sym_assert(k == n, "number of values"); }
HARNESS(range_until) { u64 n = sym_choose(0, 5), k = 0; long e = (long)n * 3 - (n ? (long)sym_choose(0, 2) : 0); for (auto x : range(0l, e, [](long v) { return v + 3; }, [](long x, long y) { return x >= y; })) { sym_assert(x == (long)k * 3, "k-th value"); if (++k > n) break; } sym_assert(k == n, "stops at the first value not below the end"); }
HARNESS(enumerate_lvalue) { u64 n = sym_choose(0, 6), k = 0; std::vector<double> a(n + 1), w; fin(a); w = a; a.resize(n); for (auto [i, x] : enumerate(a)) { sym_assert((u64)i == k, "index"); sym_eq(&x, &w[k], 1, "element"); x = x * 2; if (++k > n) break; } sym_assert(k == n, "number of elements"); for (u64 i = 0; i < n; i++) { double e = w[i] * 2; sym_eq(&a[i], &e, 1, "elements are references"); } }
HARNESS(enumerate_rvalue) { u64 n = sym_choose(0, 6), k = 0; std::vector<double> a(n + 1), w; fin(a); w = a; a.resize(n); for (auto [i, x] : enumerate(std::vector<double>(a))) { sym_assert((u64)i == k, "index"); sym_eq(&x, &w[k], 1, "element"); if (++k > n) break; } sym_assert(k == n, "number of elements"); }
HARNESS(enumerate_const) { std::array<u64, 4> a; for (auto &x : a) x = fr(); auto const &c = a; u64 k = 0; for (auto [i, x] : enumerate(c)) { sym_assert((u64)i == k, "index"); sym_assert(x == a[k], "element"); if (++k > 4) break; } sym_assert(k == 4, "number of elements"); }
HARNESS(reversed) { u64 n = sym_choose(0, 6), k = 0; std::vector<double> a(n + 1), w; fin(a); w = a; a.resize(n); for (auto &x : ceras::reverse(a)) { sym_eq(&x, &w[n - 1 - k], 1, "element"); x = x + 1; if (++k > n) break; } sym_assert(k == n, "number of elements"); for (u64 i = 0; i < n; i++) { double e = w[i] + 1; sym_eq(&a[i], &e, 1, "elements are references"); } }
HARNESS(lists) { u64 a = fr(), b = fr(), c = fr(), d = fr(); auto l = make_list(a, b, c, d); sym_assert(l([](u64 p, u64 q, u64 r, u64 s) { return p * 3 + q * 5 + r * 7 + s; }) == a * 3 + b * 5 + c * 7 + d, "the values in order"); sym_assert(make_list(a)([](u64 p) { return p; }) == a, "one value"); sym_assert(make_list()([]() { return 7; }) == 7, "no value"); }
// ---- identities
HARNESS(place_holder_order) { typedef place_holder<tensor<double>> ph; std::vector<ph> v; std::vector<int> own; v.push_back(ph{}); own.push_back(0); int fresh = 1; for (int k = 0; k < 4; k++) { u64 act = sym_choose(0, 3); u64 src = act == 0 ? 0 : sym_choose(0, std::min<u64>(v.size() - 1, 1)); if (act == 0) { v.push_back(ph{}); own.push_back(fresh++); } else if (act == 1) { v.push_back(v[src]); own.push_back(own[src]); } else if (act == 2) { ph t{v[src]}; v.push_back(std::move(t)); own.push_back(own[src]); } else { v.push_back(ph{}); v.back() = v[src]; own.push_back(own[src]); } }
  for (u64 i = 0; i < v.size(); i++) for (u64 j = 0; j < v.size(); j++) { bool eq = own[i] == own[j]; sym_assert((v[i] == v[j]) == eq, "equal exactly when one was copied from the other"); sym_assert((v[i] != v[j]) == !eq, "!="); int n = (v[i] < v[j]) + (v[i] == v[j]) + (v[i] > v[j]); sym_assert(n == 1, "exactly one of <, ==, >"); sym_assert((v[i] <= v[j]) == !(v[i] > v[j]) && (v[i] >= v[j]) == !(v[i] < v[j]), "<= and >="); sym_assert((v[i] < v[j]) == (v[j] > v[i]), "< mirrors >"); for (u64 k = 0; k < v.size(); k++) if (v[i] < v[j] && v[j] < v[k]) sym_assert(v[i] < v[k], "< is transitive"); }
  // the order is the one a session's bindings rely on
  auto &s = get_default_session<tensor<double>>(); std::vector<double> x(v.size()); fin(x); for (u64 i = 0; i < v.size(); i++) s.bind(v[i], from<double>({1}, {x[i]})); for (u64 i = 0; i < v.size(); i++) { u64 last = i; for (u64 j = 0; j < v.size(); j++) if (own[j] == own[i]) last = j; tensor<double> t = v[i].forward(); sym_eq(t.data(), &x[last], 1, "each place_holder keeps its own binding, copies share it"); } }
HARNESS(variable_ids) { typedef variable<tensor<double>> var; std::vector<var> v; std::vector<int> own; int fresh = 0; for (int k = 0; k < 5; k++) { u64 act = v.empty() ? 0 : sym_choose(0, 1); if (!act) { v.push_back(var{from<double>({1}, {1.0 * k})}); own.push_back(fresh++); } else { u64 src = sym_choose(0, v.size() - 1); v.push_back(v[src]); own.push_back(own[src]); } } for (u64 i = 0; i < v.size(); i++) for (u64 j = 0; j < v.size(); j++) { sym_assert((v[i].id() == v[j].id()) == (own[i] == own[j]), "ids identify variables"); sym_assert((v[i] == v[j]) == (own[i] == own[j]), "== identifies variables"); } }
HARNESS(distinct_ids) { variable<tensor<double>> a{from<double>({1}, {1.0})}, b{from<double>({1}, {2.0})}; place_holder<tensor<double>> p; constant<tensor<double>> c{from<double>({1}, {3.0})}; value<double> q{2.0}; auto e1 = a + b, e2 = a + b; auto e3 = relu(e1), e4 = relu(e1); tensor<double> t{{1}}; std::vector<int> ids{a.id(), b.id(), p.id(), c.id(), q.id(), e1.id(), e2.id(), e3.id(), e4.id(), t.id()}; for (u64 i = 0; i < ids.size(); i++) for (u64 j = 0; j < i; j++) sym_assert(ids[i] != ids[j], "ids are distinct"); auto e5 = e3; sym_assert(e5.id() == e3.id(), "a copied operator is the same node"); }
