// Native side of the harness interface: replays a solver model (or a witness) against the real build of /repo.
// exit codes: 0 all assertions held, 77 an assertion failed (SYMFAIL line), 78 the inputs do not satisfy an assumption, anything else: crash.
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <random>
#include <thread>
#include <cstdarg>
#include <atomic>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <malloc.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
typedef unsigned long u64;
static std::map<std::string, std::pair<char, std::string>> vals; static u64 seqno = 0; static int pert = 0; static u64 rs = 88172645463325252ull; static u64 ncheck = 0;
static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static double ru() { return (double)(rnd() >> 11) / 9007199254740992.0 * 2 - 1; }
static std::pair<char, std::string> *look(u64 q, u64 i) { auto it = vals.find("v" + std::to_string(q) + "_" + std::to_string(i)); return it == vals.end() ? nullptr : &it->second; }
static double fval(u64 q, u64 i) { auto *p = look(q, i); if (!p) return 1.5 * ru(); double d = strtod(p->second.c_str(), nullptr); if (pert) { double s = (pert % 4 == 1) ? 0.02 : (pert % 4 == 2) ? 0.1 : (pert % 4 == 3) ? 0.5 : 1.0; d += s * ru(); } return d; }
static u64 uval(u64 q, u64 i, u64 dflt) { auto *p = look(q, i); return p ? strtoull(p->second.c_str(), nullptr, 10) : dflt; }
[[noreturn]] static void fail(const char *label, const char *fmt = "", double a = 0, double b = 0, u64 i = 0) { printf("SYMFAIL %s element %lu: got %.9g expected %.9g %s\n", label, i, a, b, fmt); fflush(stdout); _exit(77); }
static bool fin_(double a) { return std::isfinite(a); }
static void cmp(double a, double b, double tol, const char *l, u64 i) { ncheck++; bool fa = fin_(a), fb = fin_(b); if (!fa && !fb) { if (std::isnan(a) || std::isnan(b) || a == b) return; fail(l, "", a, b, i); } if (fa != fb || std::fabs(a - b) > tol * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)))) fail(l, "", a, b, i); }
// ---- allocation accounting
static long failAt = -1; static std::atomic<u64> allocCount{0}, live{0}; static u64 cap = 0; // relaxed: no ordering that would hide a race
#define RLX std::memory_order_relaxed
 static u64 rndOn = 0; static unsigned cores = 2;
static bool allocOK(u64 n) { if (failAt >= 0 && (long)allocCount.fetch_add(1, RLX) == failAt) return false; if (cap && (n > cap || live.load(RLX) + n > cap)) return false; return true; }
static void *nw(u64 n) { if (!allocOK(n)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live.fetch_add(malloc_usable_size(p), RLX); return p; }
static void dl(void *p) { if (p) { live.fetch_sub(malloc_usable_size(p), RLX); free(p); } }
#ifndef SYM_TSAN
void *operator new(std::size_t n) { return nw(n); }
void *operator new[](std::size_t n) { return nw(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return nw(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return nw(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { dl(p); }
void operator delete[](void *p) noexcept { dl(p); }
void operator delete(void *p, std::size_t) noexcept { dl(p); }
void operator delete[](void *p, std::size_t) noexcept { dl(p); }
#endif
unsigned int std::thread::hardware_concurrency() noexcept { return cores; }
extern "C" {
void sym_f32(float *p, u64 n) { u64 q = seqno++; for (u64 i = 0; i < n; i++) p[i] = (float)fval(q, i); }
void sym_f64(double *p, u64 n) { u64 q = seqno++; for (u64 i = 0; i < n; i++) p[i] = fval(q, i); }
void sym_bytes(void *p, u64 n) { u64 q = seqno++; for (u64 i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)uval(q, i, rnd() & 255); }
u64 sym_u64(u64 lo, u64 hi) { return uval(seqno++, 0, lo); (void)hi; }
u64 sym_choose(u64 lo, u64 hi) { return uval(seqno++, 0, lo); (void)hi; }
u64 sym_concretize(u64 v) { return v; }
void sym_mode_fp() {}
void sym_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(78); } }
void sym_assert(bool c, const char *l) { ncheck++; if (!c) fail(l); }
void sym_eq_f32(const float *a, const float *b, u64 n, const char *l) { for (u64 i = 0; i < n; i++) cmp(a[i], b[i], 2e-3, l, i); }
void sym_eq_f64(const double *a, const double *b, u64 n, const char *l) { for (u64 i = 0; i < n; i++) cmp(a[i], b[i], 1e-5, l, i); }
void sym_eq_u8(const void *a, const void *b, u64 n, const char *l) { for (u64 i = 0; i < n; i++) { ncheck++; if (((const unsigned char *)a)[i] != ((const unsigned char *)b)[i]) fail(l, "(bytes)", ((const unsigned char *)a)[i], ((const unsigned char *)b)[i], i); } }
void sym_eq_u64(const u64 *a, const u64 *b, u64 n, const char *l) { for (u64 i = 0; i < n; i++) { ncheck++; if (a[i] != b[i]) fail(l, "(integers)", (double)a[i], (double)b[i], i); } }
// ref, ref2: central differences with two step sizes; only a stable estimate can refute
void sym_native_grad(double got, double ref, double ref2, double scale, bool dbl, const char *l) { ncheck++; double st = std::fabs(ref - ref2); if (!fin_(ref) || !fin_(ref2)) return; double tol = (dbl ? 1e-3 : 2e-2) * std::fmax(std::fabs(ref), std::fabs(got)) + (dbl ? 1e-6 : 3e-3) * scale; if (st > tol / 2) return; if (!fin_(got) || std::fabs(got - ref2) > tol) fail(l, "(gradient vs central difference)", got, ref2, 0); }
void sym_fail_alloc(long k) { failAt = k; allocCount = 0; }
void sym_alloc_cap(u64 b) { cap = b; }
u64 sym_live_bytes() { return live; }
bool sym_is_valid(const void *p, u64 n) {
#if defined(__SANITIZE_ADDRESS__)
  return p && !__asan_region_is_poisoned((void *)p, n);
#else
  return p != nullptr; (void)n;
#endif
}
void sym_cores(u64 n) { cores = n; }
void sym_thread_mode(int) {}
static int termCols = 80; void sym_term(int c) { termCols = c; }
int ioctl(int, unsigned long rq, ...) { va_list a; va_start(a, rq); unsigned short *p = va_arg(a, unsigned short *); va_end(a); if (rq != 0x5413 || termCols < 0) return -1; p[0] = 24; p[1] = termCols; p[2] = p[3] = 0; return 0; }
void sym_rand(int on) { rndOn = on; }
void sym_print_f32(const float *, const char *) {}
static void onAbort(int) { _exit(0); }
void sym_abort(int a) { signal(SIGABRT, a ? onAbort : SIG_DFL); }
void sym_source(std::istringstream *is, const void *p, u64 n) { is->clear(); is->str(std::string((const char *)p, n)); }
void sym_file(const char *path, const void *p, u64 n) { std::ofstream o{path, std::ios::binary}; o.write((const char *)p, n); }
void sym_sink(std::ostringstream *os) { os->str(""); }
u64 sym_drain(std::ostringstream *os, void *p, u64 cap) { std::string s = os->str(); memcpy(p, s.data(), std::min<u64>(cap, s.size())); os->str(""); return s.size(); }
void sym_end() { fflush(stdout); _exit(0); }
// state words of a re-seeded mt19937 (see sym.hpp)
bool sym_native_rand(u64 *st, u64 n) { if (!rndOn) return false; u64 q = seqno++; for (u64 i = 0; i < n; i++) st[i] = i < (rndOn > 1 ? rndOn : 64) ? (look(q, i) ? uval(q, i, 0) : (rnd() & 0xFFFFFFFF)) : (0x9E3779B9u * i & 0xFFFFFFFF); return true; }
}
int main(int argc, char **argv) {
  if (argc < 2) return 2; if (argc > 2) { std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream is(l); std::string k, t, v; is >> k >> t >> v; vals[k] = {t[0], v}; } }
  if (argc > 3) { pert = atoi(argv[3]); for (int i = 0; i < pert * 7 + 3; i++) rnd(); rs ^= (u64)pert * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 9; i++) rnd(); }
  auto h = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!h) { printf("no such harness %s\n", argv[1]); return 3; }
  h(); printf("OK checks=%lu\n", ncheck); fflush(stdout); _exit(0);
}
