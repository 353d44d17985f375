#include "sym.hpp"
using namespace vh;
typedef double T; typedef tensor<T> TT;
// f is carried out exactly if ok: a rejection is an abort() (better_assert), anything else is a failure of the check
template <class F> static void gate(bool ok, const char *l, F f) { if (!ok) sym_abort(1); f(); sym_assert(ok, l); }
static shp any(u64 maxr, u64 m1 = 3, u64 m3 = 2) { u64 r = sym_choose(1, maxr); shp s; for (u64 i = 0; i < r; i++) s.push_back(sym_choose(1, r > 2 ? m3 : m1)); return s; }
static TT Z(shp s) { TT t{s}; sym_fill(t.data(), t.size()); return t; }
static bool bc(shp a, shp b) { for (u64 i = 0; i < std::min(a.size(), b.size()); i++) { u64 x = a[a.size() - 1 - i], y = b[b.size() - 1 - i]; if (x != y && x != 1 && y != 1) return false; } return true; }
static auto &S() { return get_default_session<TT>(); }
static variable<TT> V(shp s) { return variable<TT>{Z(s)}; }
