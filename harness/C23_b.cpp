#include "C23_inc.hpp"
// ---- expressions
HARNESS(e_binary) { shp a = any(2), b = any(2); auto x = V(a), y = V(b); u64 op = sym_choose(0, 2); gate(bc(a, b), "operands that do not broadcast", [&] { if (op == 0) { auto e = x + y; S().run(e); } else if (op == 1) { auto e = x - y; S().run(e); } else { auto e = y + x; S().run(e); } }); }
HARNESS(e_binary3) { shp a = any(3, 2), b = any(3, 2); auto x = V(a), y = V(b); auto e = x + y; gate(bc(a, b), "operands that do not broadcast", [&] { S().run(e); }); }
HARNESS(e_multiply) { shp a = any(3), b = any(3); auto x = V(a), y = V(b); gate(a.size() == 2 && b.size() == 2 && a[1] == b[0], "matrices that do not match", [&] { auto e = x * y; TT o = S().run(e); sym_assert(same_shape(o, {a[0], b[1]}), "shape"); }); }
HARNESS(e_multiply_shape) { shp a = any(3), b = any(3); auto x = V(a), y = V(b); auto e = x * y; gate(a.size() == 2 && b.size() == 2 && a[1] == b[0], "static shape of matrices that do not match", [&] { sym_assert(e.shape() == shp{a[0], b[1]}, "static shape"); }); }
HARNESS(e_same) { shp a = any(2), b = any(2); auto x = V(a), y = V(b); u64 op = sym_choose(0, 3); gate(a == b, "operands of different shapes", [&] { if (op == 0) { auto e = maximum(x, y); S().run(e); } else if (op == 1) { auto e = minimum(x, y); S().run(e); } else if (op == 2) { auto e = atan2(x, y); S().run(e); } else { auto e = equal(x, y, 0.5); S().run(e); } }); }
HARNESS(e_same3) { shp a = any(3, 2), b = any(3, 2); auto x = V(a), y = V(b); u64 op = sym_choose(0, 1); gate(a == b, "operands of different shapes", [&] { if (op) { auto e = maximum(x, y); S().run(e); } else { auto e = minimum(x, y); S().run(e); } }); }
HARNESS(e_concat) { shp a = any(3, 2), b = any(3, 2); if (a.size() != b.size()) return; u64 ax = sym_choose(0, a.size() + 1); bool last = ax == a.size() + 1; u64 k = last ? a.size() - 1 : ax; bool ok = k < a.size(); for (u64 i = 0; ok && i < a.size(); i++) ok = i == k || a[i] == b[i]; auto x = V(a), y = V(b); auto e = concatenate(last ? -1ul : ax)(x, y); gate(ok, "concatenation of shapes that do not match", [&] { S().run(e); }); }
HARNESS(e_concat_shape) { shp a = any(3, 2), b = any(3, 2); u64 ax = sym_choose(0, std::min(a.size(), b.size()) + 1); bool last = ax == std::min(a.size(), b.size()) + 1; auto x = V(a), y = V(b); auto e = concatenate(last ? -1ul : ax)(x, y); gate(a.size() == b.size() && (last || ax < a.size()), "static shape of a concatenation that does not match", [&] { e.shape(); }); }
HARNESS(e_reshape) { shp a = any(3), b = any(2); bool batch = sym_choose(0, 1); auto x = V(a); auto e = ceras::reshape(b, batch)(x); u64 m = prod(a), n = prod(b); gate(batch ? m % n == 0 : m == n, "reshape to another number of elements", [&] { TT o = S().run(e); sym_assert(o.size() == m, "size"); }); }
HARNESS(e_flatten) { u64 r = sym_choose(1, 5); auto x = V(shp(r, 2)); auto e = flatten(x); gate(r > 1, "flattening a vector", [&] { S().run(e); }); }
HARNESS(e_transpose) { u64 r = sym_choose(1, 4); auto x = V(shp(r, 2)); auto e = transpose(x); gate(r == 2, "transposing a tensor that is no matrix", [&] { S().run(e); }); }
HARNESS(e_transpose_shape) { u64 r = sym_choose(1, 4); auto x = V(shp(r, 2)); auto e = transpose(x); gate(r == 2, "static shape of the transpose of a tensor that is no matrix", [&] { e.shape(); }); }
HARNESS(e_argmax) { shp a = any(3, 2); u64 ax = sym_choose(0, a.size() + 1); auto x = V(a); if (a.size() == 1 && ax == 0) return; bool mn = sym_choose(0, 1); gate(ax < a.size(), "argmax over a dimension that is not there", [&] { if (mn) { auto e = argmin(ax)(x); S().run(e); } else { auto e = argmax(ax)(x); S().run(e); } }); }
HARNESS(e_flip) { u64 r = sym_choose(1, 5); int ax = (int)sym_choose(0, r + 2) - 1; auto x = V(shp(r, 2)); auto e = flip(ax)(x); gate(r <= 4 && ax < (int)r, "flip of a dimension that is not there", [&] { S().run(e); }); }
