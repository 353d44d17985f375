// Misuse: operands, axes, sizes and options that an operation cannot work with.
// BOUND: all pairs of shapes of rank 1 to 3 (products: 1 to 3, concatenation: 1 to 3) with dimensions 1 to 3 (rank 3: 1 to 2); all axes from -1 to rank + 1; all ranks 1 to 5 for operators on images; factors are free; view indices, dimensions and vector sizes free or 0 to 6; entries arbitrary
// ASSUME: real arithmetic instead of floating point
// OUTSIDE: the message printed; running with debug_mode off, which disables the diagnostics; not-a-number operands
#include "C23_inc.hpp"
// ---- tensors
HARNESS(t_inplace) { shp a = any(2), b = any(2); u64 op = sym_choose(0, 3); TT x = Z(a), y = Z(b); gate(a == b, "in-place arithmetic on different shapes", [&] { if (op == 0) x += y; else if (op == 1) x -= y; else if (op == 2) x *= y; else x /= y; }); }
HARNESS(t_inplace3) { shp a = any(3, 2), b = any(3, 2); TT x = Z(a), y = Z(b); gate(a == b, "in-place arithmetic on different shapes", [&] { x += y; }); }
HARNESS(t_add) { shp a = any(2), b = any(2); u64 op = sym_choose(0, 1); TT x = Z(a), y = Z(b); gate(bc(a, b), "sum of shapes that do not broadcast", [&] { TT z = op ? x + y : x - y; }); }
HARNESS(t_add3) { shp a = any(3, 2), b = any(3, 2); TT x = Z(a), y = Z(b); gate(bc(a, b), "sum of shapes that do not broadcast", [&] { TT z = x + y; }); }
HARNESS(t_divide) { shp a = any(3, 2), b = any(3, 2); TT x = Z(a), y = Z(b); gate(a == b, "quotient of different shapes", [&] { TT z = elementwise_divide(x, y); }); }
HARNESS(t_product) { shp a = any(2), b = any(2); u64 m = prod(a), n = prod(b); TT x = Z(a), y = Z(b); gate(bc(a, b) || std::max(m, n) % std::min(m, n) == 0, "product of shapes that neither broadcast nor repeat", [&] { TT z = elementwise_product(x, y); }); }
HARNESS(t_multiply) { shp a = any(3, 3), b = any(3, 3); TT x = Z(a), y = Z(b); shp p = a.size() == 1 ? shp{1, a[0]} : a, q = b.size() == 1 ? shp{b[0], 1} : b; gate(p.size() == 2 && q.size() == 2 && p[1] == q[0], "product of matrices that do not match", [&] { TT z = x * y; sym_assert(same_shape(z, {p[0], q[1]}), "shape"); }); }
HARNESS(t_concat) { shp a = any(3, 2), b = any(3, 2); if (a.size() != b.size()) return; u64 ax = sym_choose(0, a.size() + 1); bool last = ax == a.size() + 1; u64 k = last ? a.size() - 1 : ax; bool ok = k < a.size(); for (u64 i = 0; ok && i < a.size(); i++) ok = i == k || a[i] == b[i]; TT x = Z(a), y = Z(b); gate(ok, "concatenation of shapes that do not match", [&] { TT z = concatenate(x, y, last ? -1ul : ax); }); }
HARNESS(t_squeeze) { shp a = any(3, 2); int ax = (int)sym_choose(0, a.size() + 1); TT x = Z(a); bool ok = ax < (int)a.size() && a[ax] == 1 && a.size() > 1; if (a == shp{1} && ax == 0) return; gate(ok, "squeezing a dimension that is not one", [&] { TT z = squeeze(x, ax); }); }
HARNESS(t_reduce) { shp a = any(3, 2); u64 ax = sym_choose(0, a.size() + 1), op = sym_choose(0, 5); TT x = Z(a); gate(ax < a.size(), "reduction over a dimension that is not there", [&] { TT z = op == 0 ? sum(x, ax) : op == 1 ? mean(x, ax) : op == 2 ? max(x, ax) : op == 3 ? min(x, ax) : op == 4 ? variance(x, ax) : standard_deviation(x, ax); }); }
HARNESS(t_empty) { TT e; u64 op = sym_choose(0, 4); gate(false, "statistics of an empty tensor", [&] { if (op == 0) sum(e); else if (op == 1) mean(e); else if (op == 2) max(e); else if (op == 3) min(e); else softmax(e); }); }
HARNESS(t_scalar) { shp a = any(3, 2); TT x = Z(a); gate(prod(a) == 1, "several values as a scalar", [&] { x.as_scalar(); }); }
HARNESS(t_scalar_empty) { TT x; gate(false, "no value as a scalar", [&] { x.as_scalar(); }); }
HARNESS(t_make) { u64 a = sym_choose(1, 3), b = sym_choose(1, 3); gate(a * b == 4, "values that do not fill the shape", [&] { TT x{shp{a, b}, {1., 2., 3., 4.}}; sym_assert(x.size() == 4, "size"); }); }
HARNESS(t_make_list) { u64 a = sym_choose(1, 3), b = sym_choose(1, 3); gate(a * b == 2, "values that do not fill the shape", [&] { TT x({a, b}, {1., 2.}); sym_assert(x.size() == 2, "size"); }); }
HARNESS(t_repmat) { shp a = any(3, 2); TT x = Z(a); gate(a.size() == 2, "repmat of a tensor that is no matrix", [&] { TT z = repmat(x, 2, 2); }); }
HARNESS(t_broadcast_shape) { shp a = any(3, 3), b = any(3, 3); gate(bc(a, b), "shapes that do not broadcast", [&] { auto s = broadcast_shape(a, b); sym_assert(s.size() == std::max(a.size(), b.size()), "rank"); }); }
HARNESS(t_linspace) { u64 n = sym_choose(0, 4); gate(n > 1, "fewer than two points", [&] { linspace<T>(0., 1., n); }); }
HARNESS(t_flip) { u64 r = sym_choose(1, 6); shp a(r, 2); int ax = (int)sym_choose(0, r + 2) - 1; TT x = Z(a); gate(r <= 4 && ax < (int)r, "flip of a dimension that is not there", [&] { TT z = flip(x, ax); }); }
HARNESS(t_view) { T d[24]; u64 n = sym_u64(0, 100), i = sym_u64(0, 200); bool ok = i < n; if (!ok) sym_abort(1); view<T, 5> v{d, std::array<unsigned long, 5>{{n, 1, 1, 2, 3}}}; (void)v[i]; sym_assert(ok, "an index beyond the dimension of a view"); }
HARNESS(t_view_const) { T d[24]; u64 n = sym_u64(0, 100), i = sym_u64(0, 200); bool ok = i < n; if (!ok) sym_abort(1); view<T, 5> const v{d, std::array<unsigned long, 5>{{n, 1, 1, 2, 3}}}; (void)v[i]; sym_assert(ok, "an index beyond the dimension of a view"); }
HARNESS(t_load) { u64 a = sym_choose(1, 3), n = sym_choose(0, 7); std::ostringstream o; o << a << " 2\n"; for (u64 i = 0; i < n; i++) o << i << " "; o << "\n"; std::istringstream is{o.str()}; TT x; gate(n == 2 * a, "text with too few or too many values", [&] { read_tensor(is, x); sym_assert(same_shape(x, {a, 2}), "shape"); }); }
HARNESS(t_load_bad) { std::istringstream is{""}; is.setstate(std::ios::failbit); TT x; gate(false, "a broken stream", [&] { read_tensor(is, x); }); }
