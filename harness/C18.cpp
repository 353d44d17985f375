// Memory: allocators, vectors and the storage of tensors.
// BOUND: every sequence of 5 operations (THOROUGH: 6) on the memory cache (allocate one of two sizes, free the oldest or the newest block, collect garbage) with arbitrary contents; every sequence of 4 operations (THOROUGH: 6) on a cache of its own, including requests that the system refuses at first; every failing system allocation in the listed situations; every sequence of 3 operations (THOROUGH: 4) out of 9 on two vectors of up to 5 arbitrary elements; every sequence of 4 operations out of 6 on three tensors; vectors with a buffered allocator of up to 12 elements across the size of the buffer
// ASSUME: none
// OUTSIDE: CUDA host memory; moving a container whose buffered allocator holds its elements; concurrent allocation
#include "sym.hpp"
#include <memory>
using namespace vh;
typedef double T;
typedef cached_allocator<T> CA;
struct blk { T *p; u64 n; std::vector<T> v; };
static void intact(std::vector<blk> const &l) { for (auto const &b : l) for (u64 i = 0; i < b.n; i++) sym_assert(b.p[i] == b.v[i], "contents of a live block"); }
static blk fresh(CA &a, u64 n, std::vector<blk> const &l) {
  blk b{a.allocate(n), n, std::vector<T>(n)}; sym_assert(b.p != nullptr, "memory"); sym_assert(sym_is_valid(b.p, n * sizeof(T)), "memory that is there"); for (auto const &x : l) sym_assert(b.p + n <= x.p || x.p + x.n <= b.p, "live blocks do not overlap");
  for (u64 i = 0; i < n; i++) sym_assert(b.p[i] == T(0), "fresh memory is zero"); fin(b.v); for (u64 i = 0; i < n; i++) b.p[i] = b.v[i]; return b; }
static void steps(u64 k, u64 small, u64 large) { CA a; std::vector<blk> l; for (u64 i = 0; i < k; i++) { u64 o = sym_choose(0, 4); if (o < 2) l.push_back(fresh(a, o ? large : small, l)); else if (o == 4) get_memory_cache().gc(); else if (!l.empty()) { auto it = o == 2 ? l.begin() : l.end() - 1; a.deallocate(it->p, it->n); l.erase(it); } else sym_end(); intact(l); } for (auto &b : l) a.deallocate(b.p, b.n); }
#ifdef THOROUGH
HARNESS(cache) { steps(6, 2, 5); }
#else
HARNESS(cache) { steps(5, 2, 5); }
#endif
HARNESS(cache_one_size) { CA a; std::vector<blk> l; for (int k = 0; k < 3; k++) l.push_back(fresh(a, 3, l)); intact(l); a.deallocate(l[1].p, 3); l.erase(l.begin() + 1); l.push_back(fresh(a, 3, l)); intact(l); l.push_back(fresh(a, 3, l)); intact(l); for (auto &b : l) a.deallocate(b.p, b.n); l.clear(); for (int k = 0; k < 5; k++) l.push_back(fresh(a, 3, l)); intact(l); }
// types of other sizes share the cache
HARNESS(cache_types) { cached_allocator<float> f; CA d; float *p = f.allocate(4); sym_fill(p, 4); f.deallocate(p, 4); T *q = d.allocate(2); for (int i = 0; i < 2; i++) sym_assert(q[i] == 0, "fresh memory is zero"); sym_fill(q, 2); float *r = f.allocate(4); for (int i = 0; i < 4; i++) sym_assert(r[i] == 0, "fresh memory is zero"); sym_assert((void *)r >= (void *)(q + 2) || (void *)(r + 4) <= (void *)q, "live blocks do not overlap"); d.deallocate(q, 2); f.deallocate(r, 4); }
// nothing is allocated again while blocks of the size are free; all is given back at the end
HARNESS(cache_reuse) { CA a; T *p = a.allocate(6), *q = a.allocate(6); a.deallocate(p, 6); a.deallocate(q, 6); u64 l0 = sym_live_bytes(); T *r = a.allocate(6), *s = a.allocate(6); sym_assert((r == p && s == q) || (r == q && s == p), "free blocks are used again"); sym_assert(sym_live_bytes() <= l0 + 256, "no block is allocated anew"); a.deallocate(r, 6); a.deallocate(s, 6); }
HARNESS(cache_gives_back) { u64 l0 = sym_live_bytes(); { memory_cache c; std::byte *p = c.allocate(800), *q = c.allocate(800), *r = c.allocate(1600); (void)r; c.deallocate(q, 800); sym_assert(sym_live_bytes() >= l0 + 3200, "allocated"); (void)p; if (sym_choose(0, 1)) { sym_assert(c.gc(), "there is something to collect"); sym_assert(sym_live_bytes() < l0 + 3200, "collected"); sym_assert(!c.gc(), "nothing is left to collect"); } } sym_assert(sym_live_bytes() == l0, "everything is given back"); }
// whatever happened to a cache - blocks in use, returned, collected, requests that failed at first - its end gives back everything
static void lifecycle(u64 k) { u64 l0 = sym_live_bytes(); { memory_cache c; struct B { std::byte *p; u64 n; }; std::vector<B> l; std::vector<u64> idle; l.reserve(8); idle.reserve(8); for (u64 i = 0; i < k; i++) { u64 o = sym_choose(0, 4); if (o < 2) { u64 n = o ? 256 : 512; l.push_back({c.allocate(n), n}); auto it = std::find(idle.begin(), idle.end(), n); if (it != idle.end()) idle.erase(it); } else if (o == 2) { if (idle.empty()) sym_end(); u64 n = 1024 + 128 * i; sym_fail_alloc(0); std::byte *p = c.allocate(n); sym_fail_alloc(-1); sym_assert(p != nullptr && sym_is_valid(p, n), "memory"); l.push_back({p, n}); idle.clear(); } else if (o == 3) { if (l.empty()) sym_end(); c.deallocate(l.front().p, l.front().n); idle.push_back(l.front().n); l.erase(l.begin()); } else { bool g = c.gc(); sym_assert(g == !idle.empty(), "something is collected exactly if a block was idle"); idle.clear(); } for (auto &b : l) sym_assert(sym_is_valid(b.p, b.n), "a live block stays"); } } sym_assert(sym_live_bytes() == l0, "everything is given back"); }
#ifdef THOROUGH
HARNESS(cache_lifecycle) { lifecycle(6); }
#else
HARNESS(cache_lifecycle) { lifecycle(4); }
#endif
// the system has no memory left: what is free is collected and the request succeeds, or the program stops
HARNESS(cache_recovers) {
  CA a; std::vector<blk> l; l.push_back(fresh(a, 4, l)); auto b = fresh(a, 7, l); a.deallocate(b.p, 7); bool two = sym_choose(0, 1); if (two) { auto c = fresh(a, 9, l); a.deallocate(c.p, 9); }
  sym_fail_alloc(0); T *p = a.allocate(11); sym_fail_alloc(-1); sym_assert(p != nullptr && sym_is_valid(p, 88), "memory"); for (int i = 0; i < 11; i++) sym_assert(p[i] == 0, "fresh memory is zero"); blk q{p, 11, std::vector<T>(11)}; fin(q.v); for (int i = 0; i < 11; i++) p[i] = q.v[i]; l.push_back(q); intact(l); l.push_back(fresh(a, 7, l)); l.push_back(fresh(a, 9, l)); l.push_back(fresh(a, 4, l)); intact(l); for (auto &x : l) a.deallocate(x.p, x.n); }
HARNESS(cache_exhausted) { CA a; T *p = a.allocate(4); (void)p; sym_abort(1); sym_fail_alloc(0); a.allocate(5); sym_assert(false, "memory that is not there"); }
// vectors
template <typename A> struct model_ { vector<T, A> v; std::vector<T> m; };
template <typename A> static void agrees(model_<A> const &x) { sym_assert(x.v.size() == x.m.size(), "size"); sym_assert(x.v.empty() == x.m.empty(), "empty"); for (u64 i = 0; i < x.m.size(); i++) sym_assert(x.v.data()[i] == x.m[i], "element"); }
template <typename A> static void filled(model_<A> &x) { fin(x.m); for (u64 i = 0; i < x.m.size(); i++) x.v.data()[i] = x.m[i]; }
template <typename A> static void edits(u64 k) {
  u64 l0 = sym_live_bytes();
  { model_<A> a, b; a.v = vector<T, A>(3); a.m.assign(3, 0); filled(a); b.v = vector<T, A>{1, 2, 3, 4, 5}; b.m = {1, 2, 3, 4, 5}; agrees(a); agrees(b);
    for (u64 i = 0; i < k; i++) { switch (sym_choose(0, 8)) {
      case 0: a.v = b.v; a.m = b.m; break; case 1: b.v = a.v; b.m = a.m; break; case 2: a.v = std::move(b.v); a.m = b.m; b.m.clear(); break; case 3: { auto &r = a.v; a.v = r; break; } case 4: { auto &r = a.v; a.v = std::move(r); break; }
      case 5: { model_<A> c{vector<T, A>(b.v), b.m}; agrees(c); filled(c); agrees(b); a.v = std::move(c.v); a.m = c.m; break; } case 6: { vector<T, A> c(std::move(a.v)); sym_assert(a.v.size() == 0, "moved from"); sym_assert(c.size() == a.m.size(), "size"); for (u64 q = 0; q < c.size(); q++) sym_assert(c.data()[q] == a.m[q], "element"); a.m.clear(); break; }
      case 7: { u64 n = a.m.size() == 5 ? 0 : 5; a.v.resize(n); a.m.resize(n); filled(a); break; } case 8: b.v.clear(); b.m.clear(); break; }
      agrees(a); agrees(b); }
    filled(a); agrees(b); filled(b); agrees(a); }
  if (std::is_same_v<A, std::allocator<T>>) sym_assert(sym_live_bytes() == l0, "everything is given back"); }
#ifdef THOROUGH
HARNESS(vector_std) { edits<std::allocator<T>>(4); }
HARNESS(vector_cached) { edits<CA>(4); }
#else
HARNESS(vector_std) { edits<std::allocator<T>>(3); }
HARNESS(vector_cached) { edits<CA>(3); }
#endif
HARNESS(vector_made) { T x; sym_fill(&x, 1); for (u64 n : {0ul, 1ul, 9ul, 33ul}) { vector<T, CA> v(n, x), z(n); sym_assert(v.size() == n && z.size() == n && v.empty() == (n == 0), "size"); for (u64 i = 0; i < n; i++) sym_assert(v.data()[i] == x && z.data()[i] == T(0), "element"); v.resize(n); for (u64 i = 0; i < n; i++) sym_assert(v.data()[i] == x, "the same size keeps the elements"); } }
// tensors own what they show
HARNESS(tensors) {
  struct m { bool live = false; u64 n = 0; std::shared_ptr<std::vector<T>> v; std::unique_ptr<tensor<T>> t; }; std::vector<m> s(3); auto ok = [&] { for (auto &x : s) if (x.live) { sym_assert(x.t->size() == x.n, "size"); for (u64 i = 0; i < x.n; i++) sym_assert(x.t->data()[i] == (*x.v)[i], "element"); } };
  auto mk = [&](u64 i, u64 n) { auto &x = s[i]; x.t = std::make_unique<tensor<T>>(shp{n}); x.live = true; x.n = n; for (u64 q = 0; q < n; q++) sym_assert(x.t->data()[q] == 0, "a new tensor is zero"); x.v = std::make_shared<std::vector<T>>(n); fin(*x.v); for (u64 q = 0; q < n; q++) x.t->data()[q] = (*x.v)[q]; };
  mk(0, 3); mk(1, 2);
  for (int k = 0; k < 4; k++) { switch (sym_choose(0, 5)) {
    case 0: mk(2, 3); break; case 1: s[0].t.reset(); mk(0, 2); break; case 2: s[1].t = std::make_unique<tensor<T>>(*s[0].t); s[1].n = s[0].n; s[1].v = s[0].v; break;
    case 3: s[1].t = std::make_unique<tensor<T>>(s[0].t->deep_copy()); s[1].n = s[0].n; s[1].v = std::make_shared<std::vector<T>>(*s[0].v); break;
    case 4: { *s[1].t = tensor<T>{shp{3}}; s[1].n = 3; s[1].v = std::make_shared<std::vector<T>>(3, T(0)); break; } case 5: { T q; sym_fill(&q, 1); s[0].t->data()[1] = q; (*s[0].v)[1] = q; break; } }
    ok(); } }
// vectors of integers inside a buffer, and beyond it
HARNESS(buffered) {
  typedef buffered_allocator<u64, 32> BA; u64 l0 = sym_live_bytes();
  { u64 n = sym_choose(0, 12); std::vector<u64, BA> v; std::vector<u64> m; for (u64 i = 0; i < n; i++) { unsigned char c; sym_bytes(&c, 1); v.push_back(c); m.push_back(c); } auto same = [&](auto const &x) { sym_assert(x.size() == m.size(), "size"); for (u64 i = 0; i < m.size(); i++) sym_assert(x[i] == m[i], "element"); };
    same(v); if (n <= 4) sym_assert(sym_live_bytes() <= l0 + m.capacity() * 8 + 64, "small vectors live in the buffer"); std::vector<u64, BA> w(v), x(m.begin(), m.end()), y; y = v; same(w); same(x); same(y); if (n) { v[n - 1] += 1; same(w); same(y); v[n - 1] -= 1; } w.resize(9, 7); m.resize(9, 7); same(w); m.resize(2); w.resize(2); same(w); y = w; same(y); }
  sym_assert(sym_live_bytes() == l0, "everything is given back"); }
HARNESS(buffered_sizes) { buffered_allocator<T, 64> a; u64 n = sym_choose(1, 12); u64 l0 = sym_live_bytes(); T *p = a.allocate(n); sym_assert(sym_is_valid(p, n * sizeof(T)), "memory"); std::vector<T> v(n); u64 l1 = sym_live_bytes() - n * sizeof(T); sym_assert(n <= 8 ? l1 == l0 : l1 == l0 + n * sizeof(T), "what is asked for is allocated"); fin(v); for (u64 i = 0; i < n; i++) p[i] = v[i]; for (u64 i = 0; i < n; i++) sym_assert(p[i] == v[i], "element"); a.deallocate(p, n); sym_assert(sym_live_bytes() - n * sizeof(T) == l0, "given back"); }
