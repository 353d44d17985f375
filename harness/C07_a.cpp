// Data-movement operators: values, gradients, shapes.
// BOUND: tensors of one to four dimensions with up to about 100 elements, arbitrary entries and upstream gradients; per operator the listed shapes and all valid axes; histories of two bindings with every pair of listed shapes through one expression; one functor applied to two expressions
// ASSUME: floating point arithmetic is interpreted as real arithmetic
// OUTSIDE: broadcast() to a shape that does not end with the shape of the operand (the operator documents this restriction); shapes beyond the listed ones
#include "mover.hpp"
using namespace vh;
typedef double T;
static refmap idmap(shp const &is, shp const &os) { refmap r; r.s = os; for (u64 i = 0; i < prod(is); ++i) r.m.push_back(i); return r; }
#define MV(name, F, R, ...) HARNESS(name) { mover<T>(#name, F, R, {__VA_ARGS__}); } HARNESS(name##_twice) { std::vector<shp> h{__VA_ARGS__}; twice<T>(#name, F, R, h[0]); }
MV(broadcast, (broadcast({2, 3, 4})), ([](shp is) { u64 n = prod(is); refmap r; r.s = {2, 3, 4}; for (u64 i = 0; i < 24; ++i) r.m.push_back(i % n); return r; }), {4}, {1, 4}, {3, 4}, {2, 3, 4}, {1})
MV(broadcast_long, (broadcast({3, 11})), ([](shp is) { u64 n = prod(is); refmap r; r.s = {3, 11}; for (u64 i = 0; i < 33; ++i) r.m.push_back(i % n); return r; }), {11}, {1, 11})
MV(reshape_batch, (reshape({2, 3})), ([](shp is) { return idmap(is, {prod(is) / 6, 2, 3}); }), {2, 6}, {3, 1, 6}, {6}, {1, 3, 2})
MV(reshape_nobatch, ((reshape({2, 3, 2}, false))), ([](shp is) { return idmap(is, {2, 3, 2}); }), {12}, {3, 4}, {2, 1, 6})
MV(flatten, (([](auto const &x) { return flatten(x); })), ([](shp is) { return idmap(is, {is[0], prod(is) / is[0]}); }), {2, 3, 2}, {3, 4}, {1, 2, 2, 2}, {4, 1})
MV(squeeze_all, (squeeze()), ([](shp is) { shp o; for (u64 x : is) if (x != 1) o.push_back(x); if (o.empty()) o.push_back(1); return idmap(is, o); }), {1, 3, 1, 2}, {2, 1}, {1, 1}, {3, 2})
MV(squeeze_0, (squeeze(0)), ([](shp is) { shp o(is.begin() + 1, is.end()); return idmap(is, o); }), {1, 3, 1}, {1, 4})
MV(squeeze_1, (squeeze(1)), ([](shp is) { shp o = is; o.erase(o.begin() + 1); return idmap(is, o); }), {3, 1, 2}, {2, 1})
static refmap tr(shp is) { return rmap({is[1], is[0]}, [=](std::vector<u64> c) { return long(c[1] * is[1] + c[0]); }); }
MV(transpose, (([](auto const &x) { return transpose(x); })), (tr), {2, 3}, {4, 1}, {3, 3}, {3, 2}, {1, 9})
MV(identity, (([](auto const &x) { return identity(x); })), ([](shp is) { return idmap(is, is); }), {2, 3}, {4})
HARNESS(expand_dims) { for (int ax = -1; ax < 3; ++ax) mover<T>("expand_dims", expand_dims(ax), [=](shp is) { shp o = is; o.insert(ax == -1 ? o.end() : o.begin() + ax, 1); return idmap(is, o); }, {{2, 3}, {3, 2, 2}}); mover<T>("expand_dims", expand_dims(1), [=](shp is) { shp o = is; o.insert(o.begin() + 1, 1); return idmap(is, o); }, {{5}, {2}}); }
static refmap fl(shp is, u64 ax) { return rmap(is, [=](std::vector<u64> c) { c[ax] = is[ax] - 1 - c[ax]; return flat(c, is); }); }
HARNESS(flip) { std::vector<shp> h{{2, 3, 2}, {3, 1, 4}, {1, 2, 1}}; for (int ax = -1; ax < 3; ++ax) mover<T>("flip", flip(ax), [=](shp is) { return fl(is, ax == -1 ? is.size() - 1 : ax); }, h); }
HARNESS(flip_twice) { twice<T>("flip", flip(1), [](shp is) { return fl(is, 1); }, {2, 3}); }
static refmap rp(shp is, u64 n, u64 ax) { if (ax >= is.size()) ax = is.size() - 1; shp o = is; o[ax] *= n; return rmap(o, [=](std::vector<u64> c) { c[ax] /= n; return flat(c, is); }); }
HARNESS(repeat) { std::vector<shp> h{{2, 3, 2}, {3, 1, 4}, {5}, {1, 2}}; u64 n = sym_choose(1, 3); std::vector<u64> axs{0, 1, 2, -1UL}; u64 ax = axs[sym_choose(0, 3)]; mover<T>("repeat", repeat(n, ax), [=](shp is) { return rp(is, n, ax); }, h); }
HARNESS(repeat_default) { mover<T>("repeat", repeat(2), [=](shp is) { return rp(is, 2, -1UL); }, {{2, 3}, {4}}); }
HARNESS(repeat_twice) { twice<T>("repeat", repeat(2, 0), [=](shp is) { return rp(is, 2, 0); }, {2, 3}); }
