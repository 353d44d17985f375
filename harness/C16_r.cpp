// GEN: R300 include/utils/lzw.hpp lzw_small_R300.hpp /(const(?:expr)?\s+(?:static\s+)?CodeType\s+dms\s*[={(]+\s*)1024\s*\*\s*1024/\g<1>300/
// BOUND: a dictionary of 300 entries (the constant alone is replaced in a copy of the current header): texts of up to 1000 bytes across one or more resets, one or two bytes arbitrary, also ending at the reset
#include "lzw_small_R300.hpp"
#include "sym.hpp"
using namespace vh;
typedef unsigned char B;
static std::vector<B> packed(std::vector<B> const &in) { std::istringstream is; std::ostringstream os; sym_source(&is, in.data(), in.size()); sym_sink(&os); lzw::compress(is, os); std::vector<B> out(4 * in.size() + 8); u64 n = sym_drain(&os, out.data(), out.size()); sym_assert(n <= out.size(), "size of the compressed stream"); out.resize(n); return out; }
static void round_trip(std::vector<B> const &in) { auto z = packed(in); std::istringstream is; std::ostringstream os; sym_source(&is, z.data(), z.size()); sym_sink(&os); int r = lzw::decompress(is, os); sym_assert(r == 0, "accepted"); std::vector<B> back(in.size() + 16); u64 n = sym_drain(&os, back.data(), back.size()); sym_assert(n == in.size(), "size"); B d = 0; for (u64 i = 0; i < in.size(); i++) d |= back[i] ^ in[i]; sym_assert(d == 0, "contents"); }
static std::vector<B> bytes(u64 n) { std::vector<B> v(n); sym_bytes(v.data(), n); return v; }
#ifdef GEN_R300
// round trips across the reset; the text is fixed but for the arbitrary bytes
static void across(u64 n, u64 pattern, u64 k, u64 m) { std::vector<B> v; u64 x = 99 + pattern; auto next = [&](u64 i) { x = x * 6364136223846793005ull + 1442695040888963407ull; return pattern == 0 ? (B)(i * 3) : pattern == 1 ? (B)(x >> 33) : (B)((x >> 40) & 3); }; for (u64 i = 0; i < n; i++) v.push_back(next(i)); auto t = bytes(k); v.insert(v.end(), t.begin(), t.end()); for (u64 i = 0; i < m; i++) v.push_back(next(i)); round_trip(v); }
HARNESS(reset_at_41) { across(41, 0, 1, 6); }
HARNESS(reset_at_42) { across(42, 0, 1, 6); }
HARNESS(reset_at_43) { across(43, 0, 1, 6); }
HARNESS(reset_at_44) { across(44, 0, 1, 6); }
HARNESS(reset_at_45) { across(45, 0, 1, 6); }
HARNESS(reset_end) { u64 n = sym_choose(40, 46); across(n, 0, 1, 0); }
HARNESS(reset_two) { across(42, 1, 2, 3); }
HARNESS(reset_again) { across(150, 1, 1, 60); }
HARNESS(reset_repeats) { across(200, 2, 1, 100); }
HARNESS(reset_run) { B b; sym_bytes(&b, 1); round_trip(std::vector<B>(1000, b)); }
#else
HARNESS(small_r) { round_trip(bytes(1)); }
#endif
