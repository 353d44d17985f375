// BOUND: sequences of 60 allocations and returns of blocks of up to 40 sizes and of up to 3000 elements, in three fixed orders with arbitrary contents; vectors of 1500 elements; 20 tensors made and dropped
#include "sym.hpp"
using namespace vh;
typedef double T;
typedef cached_allocator<T> CA;
struct blk { T *p; u64 n; std::vector<T> v; };
static void intact(blk const &b) { for (u64 i = 0; i < b.n; i++) sym_assert(b.p[i] == b.v[i], "contents of a live block"); }
static blk fresh(CA &a, u64 n, std::vector<blk> const &l) { blk b{a.allocate(n), n, std::vector<T>(n)}; sym_assert(b.p != nullptr && sym_is_valid(b.p, n * sizeof(T)), "memory that is there"); for (auto const &x : l) sym_assert(b.p + n <= x.p || x.p + x.n <= b.p, "live blocks do not overlap"); for (u64 i = 0; i < n; i++) sym_assert(b.p[i] == T(0), "fresh memory is zero"); fin(b.v); for (u64 i = 0; i < n; i++) b.p[i] = b.v[i]; return b; }
HARNESS(long_cache) { u64 order = sym_choose(0, 2); CA a; std::vector<blk> l; u64 z = 7; for (u64 k = 0; k < 60; k++) { z = z * 29 + 11; u64 n = order == 0 ? z % 40 + 1 : order == 1 ? (z % 4 + 1) * 3 : z % 3 * 8 + 1; if (l.size() < 3 || (z >> 3) % 3) l.push_back(fresh(a, n, l)); else { u64 i = order == 1 ? l.size() - 1 : (z >> 5) % l.size(); intact(l[i]); a.deallocate(l[i].p, l[i].n); l.erase(l.begin() + i); } if (k == 33) get_memory_cache().gc(); } for (auto &b : l) { intact(b); a.deallocate(b.p, b.n); } }
HARNESS(wide_blocks) { CA a; std::vector<blk> l; for (u64 n : {3000, 511, 512, 513, 1024, 3000, 65}) l.push_back(fresh(a, n, l)); for (auto &b : l) intact(b); for (auto &b : l) a.deallocate(b.p, b.n); l.clear(); for (u64 n : {512, 3000, 1023, 513, 65}) l.push_back(fresh(a, n, l)); for (auto &b : l) { intact(b); a.deallocate(b.p, b.n); } }
HARNESS(wide_vector) { vector<T, CA> v(1500), z(3); std::vector<T> r(1500); for (u64 i = 0; i < 1500; i++) sym_assert(v.data()[i] == T(0), "a new vector is zero"); fin(r); for (u64 i = 0; i < 1500; i++) v.data()[i] = r[i]; auto w = v; z = v; for (u64 i = 0; i < 1500; i++) v.data()[i] = T(1); sym_assert(w.size() == 1500 && z.size() == 1500 && v.size() == 1500, "size"); sym_eq(w.data(), r.data(), 1500, "elements of the copy"); sym_eq(z.data(), r.data(), 1500, "elements of the assigned one"); w.resize(40); sym_assert(w.size() == 40, "size"); auto m = std::move(z); sym_assert(m.size() == 1500, "size"); sym_eq(m.data(), r.data(), 1500, "elements moved"); }
HARNESS(long_tensors) { std::vector<tensor<T>> l; std::vector<std::vector<T>> d; for (u64 k = 0; k < 40; k++) { if (l.size() > 4) { u64 i = k * 7 % l.size(); want(l[i], l[i].shape(), d[i], "a tensor among others"); l.erase(l.begin() + i); d.erase(d.begin() + i); } shp s = k % 3 ? shp{k % 5 + 1, 2} : shp{k % 4 + 1}; tensor<T> t{s}; want(t, s, std::vector<T>(prod(s), T(0)), "a new tensor is zero"); auto u = arb<T>(s); for (u64 i = 0; i < prod(s); i++) t.data()[i] = u.data()[i]; l.push_back(t); d.push_back(snap(u)); } for (u64 i = 0; i < l.size(); i++) want(l[i], l[i].shape(), d[i], "a tensor among others"); }
