// BOUND: parallel( f, first, last, threshold ) with 8-, 16-, 32- and 64-bit index types: up to 20 indices starting at an arbitrary (symbolic) point of the type, 0 to 9 cores; 16 to 517 indices with 17 to 257 cores, thresholds 0 to 9; nested calls; threads run eagerly, in start order at the first join, or in reverse start order
// BOUND: for_each over 1 to 4 sequences of up to 20 elements (pointers, vector and tensor iterators); 1 to 8 cores
// BOUND: library operators over 9 to 40 elements with 1, 3 and 8 cores under all three thread orders; every pair of memory accesses by two threads that are not ordered by start, join or a common mutex is examined for a conflict (the same examination runs in all the other checks, with two cores)
// OUTSIDE: accesses made through natively modelled library calls (stream formatting); weak-memory effects of programs with such a race (a race is itself the violation); functions passed by the user to map() or for_each() that carry state of their own
// TIME: 150
#include "sym.hpp"
using namespace vh;
template <class I> void once(I first, u64 n, u64 cores, u64 th, bool dflt, int mode) {
  sym_cores(cores); sym_thread_mode(mode); I last = (I)(first + (I)n); unsigned char hit[640] = {}; bool out = false; u64 calls = 0; std::mutex m;
  auto f = [&](I i) { I d = (I)(i - first); m.lock(); calls++; m.unlock(); if (d >= (I)n) out = true; else hit[(u64)d]++; };
  if (dflt) parallel(f, first, last); else parallel(f, first, last, th);
  sym_assert(!out, "index outside the range"); sym_assert(calls == n, "number of calls"); bool ok = true; for (u64 i = 0; i < n; i++) ok = ok & (hit[i] == 1); sym_assert(ok, "every index exactly once"); }
template <class I> void upto(u64 n, u64 cores, int mode) {
  sym_cores(cores); sym_thread_mode(mode); unsigned char hit[64] = {}; bool out = false; auto f = [&](I i) { if ((u64)i >= n) out = true; else hit[(u64)i]++; };
  parallel(f, (I)n); bool ok = !out; for (u64 i = 0; i < n; i++) ok = ok & (hit[i] == 1); sym_assert(ok, "every index below the bound exactly once"); }
static const u64 CS[] = {0, 1, 2, 3, 4, 5, 7, 8, 9};
#define PAR(T, N, FIRST, COND) HARNESS(N) { u64 c = CS[sym_choose(0, 8)], n = sym_choose(0, 20); T first = (T)FIRST; sym_assume(COND); once<T>(first, n, c, 0, true, 0); }
PAR(unsigned long, par_u64, sym_u64(0, 1000), true)
PAR(unsigned int, par_u32, sym_u64(0, 100000), true)
PAR(unsigned short, par_u16, sym_u64(0, 65535 - 20), true)
PAR(unsigned char, par_u8, sym_u64(0, 255), (u64)first + n <= 255)
HARNESS(par_threshold) { u64 c = CS[sym_choose(0, 8)], n = sym_choose(0, 12), th = sym_choose(0, 9); once<unsigned long>(sym_u64(0, 9), n, c, th, false, 0); }
HARNESS(par_in_order) { u64 c = CS[sym_choose(2, 8)], n = sym_choose(0, 20), th = sym_choose(0, 1) * 8; once<unsigned long>(sym_u64(0, 9), n, c, th, false, 1); }
HARNESS(par_reverse) { u64 c = CS[sym_choose(2, 8)], n = sym_choose(0, 20), th = sym_choose(0, 1) * 8; once<unsigned long>(sym_u64(0, 9), n, c, th, false, 2); }
HARNESS(par_upto) { u64 c = CS[sym_choose(0, 8)], n = sym_choose(0, 20); upto<unsigned long>(n, c, (int)sym_choose(0, 2)); }
HARNESS(par_upto32) { u64 c = CS[sym_choose(0, 8)], n = sym_choose(0, 20); upto<unsigned int>(n, c, 0); }
HARNESS(par_nested) { u64 c = sym_choose(1, 4), n = sym_choose(9, 12); sym_cores(c); sym_thread_mode(0); unsigned char hit[12 * 11] = {};
  parallel([&](unsigned long i) { parallel([&](unsigned long j) { hit[i * 11 + j]++; }, 0ul, 11ul); }, 0ul, n); bool ok = true; for (u64 i = 0; i < n * 11; i++) ok = ok & (hit[i] == 1); sym_assert(ok, "every pair exactly once"); }
HARNESS(par_many) { u64 c = sym_choose(1, 3) == 1 ? 64 : 16, n = sym_choose(15, 40); once<unsigned long>(sym_u64(0, 9), n, c, 0, false, (int)sym_choose(0, 2)); }
HARNESS(par_big) { static const u64 B[] = {17, 33, 64, 65, 100, 128, 129, 257}; u64 c = B[sym_choose(0, 7)], k = sym_choose(0, 4); once<unsigned long>(sym_u64(0, 9), k == 0 ? c - 1 : k == 1 ? c : k == 2 ? c + 1 : k == 3 ? 2 * c - 1 : 2 * c + 3, c, 0, true, (int)(k % 3)); }
// ---- for_each
static void conf(u64 &n) { static const u64 NS[] = {1, 2, 8, 9, 11, 16, 17, 20}; static const u64 C[] = {1, 2, 3, 8}; n = NS[sym_choose(0, 7)]; sym_cores(C[sym_choose(0, 3)]); sym_thread_mode((int)sym_choose(0, 2)); }
HARNESS(each_1) { u64 n; conf(n); std::vector<double> a(n), r(n); fin(a); for (u64 i = 0; i < n; i++) r[i] = a[i] * 2 + 1; for_each(a.begin(), a.end(), [](double &x) { x = x * 2 + 1; }); sym_eq(a.data(), r.data(), n, "each element once"); }
HARNESS(each_2) { u64 n; conf(n); std::vector<double> a(n + 1), b(n + 1), r(n + 1); fin(a); fin(b); r[n] = a[n]; for (u64 i = 0; i < n; i++) r[i] = a[i] * 3 - b[i]; for_each(a.begin(), a.begin() + n, b.begin(), [](double &x, double y) { x = x * 3 - y; }); sym_eq(a.data(), r.data(), n + 1, "element by element"); }
HARNESS(each_3) { u64 n; conf(n); auto a = arb<double>({n + 1}), b = arb<double>({n + 1}), o = arb<double>({n + 1}); auto A = snap(a), Bb = snap(b), r = snap(o); for (u64 i = 0; i < n; i++) r[i] = A[i] + Bb[i] * 5; for_each(a.begin(), a.begin() + n, b.begin(), o.begin(), [](double x, double y, double &z) { z = x + y * 5; }); sym_eq(o.data(), r.data(), n + 1, "third sequence"); sym_eq(a.data(), A.data(), n + 1, "first sequence kept"); }
HARNESS(each_4) { u64 n; conf(n); std::vector<double> a(n), b(n), c(n), d(n), r(n), q(n); fin(a); fin(b); fin(c); fin(d); for (u64 i = 0; i < n; i++) { r[i] = a[i] - b[i] * c[i] + d[i]; q[i] = a[i]; } for_each(a.data(), a.data() + n, b.data(), c.data(), d.data(), [](double x, double &y, double z, double &w) { w = x - y * z + w; y = x; }); sym_eq(d.data(), r.data(), n, "fourth sequence"); sym_eq(b.data(), q.data(), n, "second sequence"); }
// ---- operators: results do not depend on the number of cores or on the order in which threads run, and no two threads touch the same memory
template <class F> void anyorder(F f) { sym_cores(1); sym_thread_mode(0); std::vector<double> ref; f(ref); static const u64 C[] = {3, 8}; sym_cores(C[sym_choose(0, 1)]); sym_thread_mode((int)sym_choose(0, 2)); std::vector<double> got; f(got); sym_assert(got.size() == ref.size(), "size"); sym_eq(got.data(), ref.data(), ref.size(), "same result with one core and with several"); }
static void put(std::vector<double> &o, tensor<double> const &t) { for (u64 i = 0; i < t.size(); i++) o.push_back(t.data()[i]); }
#define OP2(N, SA, SB, EXPR) HARNESS(N) { auto A = gv<double>(shp SA), B = gv<double>(shp SB); anyorder([&](std::vector<double> &o) { auto a = from<double>(A.s, A.v), b = from<double>(B.s, B.v); EXPR; put(o, a); put(o, b); }); }
OP2(t_plus, ({3, 4}), ({3, 4}), put(o, a + b); put(o, a - b); put(o, elementwise_product(a, b)))
OP2(t_broadcast, ({3, 4}), ({4}), put(o, a + b); put(o, b - a); put(o, elementwise_product(a, b)))
OP2(t_scalar, ({9}), ({1}), put(o, a * 2.0); put(o, a + 1.0); put(o, -a); a += 3.0; a *= 2.0; a -= 1.0)
OP2(t_gemm, ({9, 3}), ({3, 10}), put(o, multiply(a, b)))
OP2(t_gemm_tall, ({17, 2}), ({2, 3}), put(o, multiply(a, b)))
OP2(t_reduce, ({10, 3}), ({1}), put(o, ceras::sum(a, 0)); put(o, ceras::sum(a, 1)); put(o, ceras::mean(a, 0)))
OP2(t_softmax, ({2, 9}), ({1}), put(o, softmax(a)))
OP2(t_copy, ({10}), ({10}), put(o, a.deep_copy()); put(o, concatenate(a, b)); put(o, repeat(a, 2)); put(o, clip(a, -1.0, 1.0)))
template <class F> void opord(shp sa, shp sb, F f) { auto A = gv<double>(sa), B = gv<double>(sb); learning_phase = 1; sym_cores(1); 
  auto go = [&](std::vector<double> &o, std::vector<double> &g, bool first) { auto &s = get_default_session<tensor<double>>(); variable<tensor<double>> a{from<double>(A.s, A.v)}, b{from<double>(B.s, B.v)}; auto e = f(a, b); tensor<double> r = s.run(e).deep_copy(); if (first) { g.resize(r.size()); fin(g); } sym_assert(g.size() == r.size(), "size"); e.backward(from<double>(r.shape(), g)); put(o, r); put(o, a.gradient()); put(o, b.gradient()); };
  std::vector<double> ref, g, got; sym_thread_mode(0); go(ref, g, true); static const u64 C[] = {3, 8}; sym_cores(C[sym_choose(0, 1)]); sym_thread_mode((int)sym_choose(0, 2)); go(got, g, false); sym_assert(got.size() == ref.size(), "size"); sym_eq(got.data(), ref.data(), ref.size(), "same values and gradients with one core and with several"); }
#define OPB(N, SA, SB, E) HARNESS(N) { opord(shp SA, shp SB, [](auto a, auto b) { return E; }); }
OPB(o_arith, ({2, 5}), ({5}), (a + b) * 0.0 + hadamard_product(a, b) - b)
OPB(o_matmul, ({9, 2}), ({2, 9}), a * b)
OPB(o_act, ({10}), ({10}), relu(a) + leaky_relu(0.1)(b))
OPB(o_repeat, ({2, 3}), ({6, 3}), repeat(3, 0)(a) + b)
OPB(o_minmax, ({10}), ({10}), maximum(a, b) + minimum(a, b))
OPB(o_conv, ({1, 4, 4, 1}), ({1, 2, 2, 1}), conv2d(4, 4, 1, 1, 1, 1, "valid")(a, b))
OPB(o_pool, ({1, 4, 4, 2}), ({1, 2, 2, 2}), max_pooling_2d(2)(a) + b)
OPB(o_upsample, ({1, 2, 2, 2}), ({1, 4, 4, 2}), up_sampling_2d(2)(a) + b)
OPB(o_reduce, ({3, 4}), ({4}), reduce_sum(0)(a) + b)
OPB(o_concat, ({3, 2}), ({3, 4}), concatenate(1)(a, b))
OPB(o_transpose, ({3, 4}), ({4, 3}), transpose(a) + b)
