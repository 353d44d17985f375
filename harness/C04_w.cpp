// BOUND: gemm of 33x17 by 17x35 and 3x70 by 70x2 in all modes; product expressions of 17x20 by 20x19
#include "sym.hpp"
using namespace vh;
template <typename T> static void big(bool ta, bool tb, u64 m, u64 n, u64 k) { std::vector<T> A(m * n), B(n * k), C(m * k + 2); fin(A); fin(B); fin(C); auto C0 = C; gemm(A.data(), ta, B.data(), tb, m, n, k, C.data() + 1); std::vector<T> ref; for (u64 r = 0; r < m; ++r) for (u64 c = 0; c < k; ++c) { T s = 0; for (u64 i = 0; i < n; ++i) s += (ta ? A[i * m + r] : A[r * n + i]) * (tb ? B[c * n + i] : B[i * k + c]); ref.push_back(s); } sym_eq(C.data() + 1, ref.data(), m * k, "value"); sym_eq(C.data(), C0.data(), 1, "guard before the output"); sym_eq(C.data() + m * k + 1, C0.data() + m * k + 1, 1, "guard after the output"); }
HARNESS(wide_gemm) { bool a = sym_choose(0, 1), b = sym_choose(0, 1); if (sym_choose(0, 1)) big<double>(a, b, 33, 17, 35); else big<float>(a, b, 3, 70, 2); }
HARNESS(wide_expression) { gradcheck<double>("gradient", [](auto &x, auto &y) { return x * y; }, gv<double>({17, 20}), gv<double>({20, 19})); }
