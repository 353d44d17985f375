// Harness interface: symbolic intrinsics (interpreted by irsym) or, with -DSYM_NATIVE, replay of a solver model on the real build.
#pragma once
#include <random>
extern "C" bool sym_native_rand(unsigned long *st, unsigned long n);
extern "C" void sym_native_grad(double got, double ref, double ref2, double scale, bool dbl, const char *label);
// the generator behind std::mt19937: arbitrary output words when sym_rand(n) is in force (n of them, provided by the model in the native build), the standard recurrence otherwise; the engine intercepts sym_native_rand
typedef std::mersenne_twister_engine<std::uint_fast32_t, 32, 624, 397, 31, 0x9908b0dfUL, 11, 0xffffffffUL, 7, 0x9d2c5680UL, 15, 0xefc60000UL, 18, 1812433253UL> vh_mt;
inline bool vh_raw = false;
template <> inline void vh_mt::_M_gen_rand() {
  vh_raw = sym_native_rand((unsigned long *)_M_x, 624);
  if (!vh_raw) for (int k = 0; k < 624; ++k) { unsigned long y = (_M_x[k] & 0x80000000UL) | (_M_x[(k + 1) % 624] & 0x7fffffffUL); _M_x[k] = _M_x[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfUL : 0); }
  _M_p = 0; }
template <> inline vh_mt::result_type vh_mt::operator()() { if (_M_p >= 624) _M_gen_rand(); unsigned long z = _M_x[_M_p++]; if (vh_raw) return z; z ^= (z >> 11) & 0xffffffffUL; z ^= (z << 7) & 0x9d2c5680UL; z ^= (z << 15) & 0xefc60000UL; z ^= z >> 18; return z; }
#include "ceras.hpp"
#include <cstdint>
#include <cstdio>
#include <sstream>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
typedef unsigned long u64;
extern "C" {
  void sym_f32(float *p, u64 n); void sym_f64(double *p, u64 n); void sym_bytes(void *p, u64 n); u64 sym_u64(u64 lo, u64 hi); u64 sym_choose(u64 lo, u64 hi); u64 sym_concretize(u64 v);
  void sym_mode_fp(); void sym_assume(bool c); void sym_assert(bool c, const char *label);
  void sym_eq_f32(const float *a, const float *b, u64 n, const char *label); void sym_eq_f64(const double *a, const double *b, u64 n, const char *label); void sym_eq_u8(const void *a, const void *b, u64 n, const char *label); void sym_eq_u64(const u64 *a, const u64 *b, u64 n, const char *label);
  void sym_grad_f32(const float *out, const float *g, u64 no, const float *x, const float *grad, u64 nx, const char *label); void sym_grad_f64(const double *out, const double *g, u64 no, const double *x, const double *grad, u64 nx, const char *label);
  void sym_fail_alloc(long k); void sym_alloc_cap(u64 bytes); u64 sym_live_bytes(); bool sym_is_valid(const void *p, u64 n); void sym_cores(u64 n); void sym_thread_mode(int m); void sym_term(int columns); void sym_rand(int on); void sym_print_f32(const float *p, const char *l); [[noreturn]] void sym_end(); void sym_abort(int allowed); void sym_source(std::istringstream *is, const void *p, u64 n); void sym_file(const char *path, const void *p, u64 n); void sym_sink(std::ostringstream *os); u64 sym_drain(std::ostringstream *os, void *p, u64 cap);
}
inline void sym_fill(float *p, u64 n) { sym_f32(p, n); }
inline void sym_fill(double *p, u64 n) { sym_f64(p, n); }
inline void sym_eq(const float *a, const float *b, u64 n, const char *l) { sym_eq_f32(a, b, n, l); }
inline void sym_eq(const double *a, const double *b, u64 n, const char *l) { sym_eq_f64(a, b, n, l); }
inline void sym_grad(const float *o, const float *g, u64 no, const float *x, const float *d, u64 nx, const char *l) { sym_grad_f32(o, g, no, x, d, nx, l); }
inline void sym_grad(const double *o, const double *g, u64 no, const double *x, const double *d, u64 nx, const char *l) { sym_grad_f64(o, g, no, x, d, nx, l); }
#define HARNESS(name) extern "C" __attribute__((noinline, used)) void h_##name()

namespace vh {
  // a fresh directory below the scratch directory of the check
  inline std::string new_dir() { const char *t = std::getenv("VH_TMP"); std::string d = std::string(t ? t : "/tmp") + "/vh_XXXXXX"; return ::mkdtemp(d.data()) ? d : std::string{}; }
  using namespace ceras;
  typedef std::vector<unsigned long> shp;
  inline u64 prod(shp const &s) { u64 r = 1; for (auto x : s) r *= x; return r; }
  // a fresh tensor filled with arbitrary values
  template <typename T> tensor<T> arb(shp const &s) { tensor<T> t{s}; sym_fill(t.data(), t.size()); return t; }
  template <typename T> tensor<T> zeros_(shp const &s) { tensor<T> t{s}; for (u64 i = 0; i < t.size(); ++i) t.data()[i] = T{0}; return t; }
  template <typename T> std::vector<T> snap(tensor<T> const &t) { return std::vector<T>(t.data(), t.data() + t.size()); }
  template <typename T> bool same_shape(tensor<T> const &t, shp const &s) { auto const &q = t.shape(); if (q.size() != s.size()) return false; for (u64 i = 0; i < s.size(); ++i) if (q[i] != s[i]) return false; return true; }
  inline bool same_shape(shp const &q, shp const &s) { return q == s; }
  template <typename T> void want(tensor<T> const &got, shp const &s, std::vector<T> const &ref, const char *label) {
    sym_assert(same_shape(got, s), "shape"); sym_assert(got.size() == ref.size(), "size"); sym_eq(got.data(), ref.data(), ref.size(), label); }
  template <typename T> void fin(std::vector<T> &v) { sym_fill(v.data(), v.size()); }
  template <typename T> tensor<T> from(shp const &s, std::vector<T> const &v) { tensor<T> t{s}; for (u64 i = 0; i < v.size(); ++i) t.data()[i] = v[i]; return t; }

  // gradient check: the library's own backward() against the derivative of the library's own forward()
  template <typename T> struct gvar { shp s; std::vector<T> v; };
  template <typename T, typename F, typename... G> void gradcheck(const char *label, F f, G... in) {
    learning_phase = 1;
    auto &s = get_default_session<tensor<T>>();
    auto eval = [&](auto const &...q) { // forward only, on fresh variables
      auto vars = std::make_tuple(variable<tensor<T>>{from<T>(q.s, q.v)}...);
      auto e = std::apply([&](auto &...v) { return f(v...); }, vars); tensor<T> o = s.run(e); return snap(o); };
    auto vars = std::make_tuple(variable<tensor<T>>{from<T>(in.s, in.v)}...);
    auto e = std::apply([&](auto &...v) { return f(v...); }, vars);
    tensor<T> o = s.run(e).deep_copy(); std::vector<T> out = snap(o);
    std::vector<T> g(out.size()); fin(g);
    e.backward(from<T>(o.shape(), g));
    auto ins = std::make_tuple(in...);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      auto one = [&](auto &var, auto const &iv, std::size_t k) {
        tensor<T> gr = var.gradient(); sym_assert(gr.size() == iv.v.size(), "gradient size"); sym_assert(same_shape(gr, iv.s), "gradient shape");
#ifndef SYM_NATIVE
        (void)k; (void)eval; sym_grad(out.data(), g.data(), out.size(), iv.v.data(), gr.data(), iv.v.size(), label);
#else
        for (std::size_t j = 0; j < iv.v.size(); ++j) {
          auto fd = [&](double h) { auto up = ins, dn = ins;
            [&]<std::size_t... K>(std::index_sequence<K...>) { ((K == k ? (void)(std::get<K>(up).v[j] += h, std::get<K>(dn).v[j] -= h) : (void)0), ...); }(std::make_index_sequence<sizeof...(in)>{});
            auto a = std::apply(eval, up), b = std::apply(eval, dn); double ref = 0; for (std::size_t i = 0; i < g.size(); ++i) ref += (double)g[i] * ((double)a[i] - (double)b[i]) / (2 * h); return ref; };
          double h = sizeof(T) == 8 ? 1e-5 : 1e-2;
          double sc = 0, so = 1; for (std::size_t i = 0; i < g.size(); ++i) { sc = std::fmax(sc, std::fabs((double)g[i])); so = std::fmax(so, std::fabs((double)out[i])); } sym_native_grad(gr.data()[j], fd(h), fd(h / 2), sc * so, sizeof(T) == 8, label); }
#endif
      };
      (one(std::get<I>(vars), std::get<I>(ins), I), ...);
    }(std::make_index_sequence<sizeof...(in)>{});
  }
  template <typename T> gvar<T> gv(shp s) { gvar<T> g; g.s = s; g.v.resize(prod(s)); fin(g.v); return g; }
  // values restricted to a box (domain of the function)
  template <typename T> gvar<T> gvb(shp s, double lo, double hi) { gvar<T> g = gv<T>(s); bool ok = true; for (auto x : g.v) ok = ok & (x > T(lo)) & (x < T(hi)); sym_assume(ok); return g; }
}
