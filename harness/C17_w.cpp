// BOUND: sessions of 30 variables and of one of 400 elements; printed tensors of the listed shapes, up to 300 elements, any of double, float and integers; twenty files in a row
#include "sym.hpp"
#include <fstream>
#include <unistd.h>
using namespace vh;
template <typename E> static void exactly(tensor<E> const &t, shp const &s, std::vector<E> const &v, const char *label) { sym_assert(same_shape(t, s), "shape"); sym_assert(t.size() == v.size(), "size"); for (u64 i = 0; i < v.size(); i++) sym_assert(t.data()[i] == v[i], label); }
template <typename E> static void session_(std::vector<shp> const &ss) { auto &s = get_default_session<tensor<E>>(); std::vector<variable<tensor<E>>> v; std::vector<std::vector<E>> d; for (auto const &q : ss) { auto t = arb<E>(q); d.push_back(snap(t)); v.emplace_back(t); s.run(v.back()); } auto dir = new_dir(), f = dir + "/file"; s.save(f); for (auto &x : v) { tensor<E> t = x.data(); sym_fill(t.data(), t.size()); } s.restore(f); for (u64 i = 0; i < v.size(); i++) exactly(v[i].data(), ss[i], d[i], "value of a variable"); std::remove(f.c_str()); std::remove(dir.c_str()); }
HARNESS(wide_session) { std::vector<shp> s; for (u64 i = 0; i < 30; i++) s.push_back(i % 3 ? shp{i % 4 + 1, 2} : shp{i % 5 + 1}); session_<double>(s); }
HARNESS(wide_variable) { session_<float>({{40, 10}, {1}}); }
HARNESS(wide_stream) { std::stringstream st; st.precision(17); auto a = arb<double>({300}), b = arb<double>({17, 3, 5}); auto A = snap(a), B = snap(b); write_tensor(st, a); write_tensor(st, b); tensor<double> c, d; read_tensor(st, c); read_tensor(st, d); exactly(c, {300}, A, "the tensor read"); exactly(d, {17, 3, 5}, B, "the tensor read"); }
// a printed tensor: its shape, then its values, one line for every row
template <typename E> static void printed(shp s) { auto a = arb<E>(s); auto A = snap(a); std::stringstream st; st.precision(std::numeric_limits<E>::max_digits10); st << a; exactly(a, s, A, "printing keeps the tensor"); std::string w, l; st >> w; sym_assert(w == "shape:", "heading"); st >> w; sym_assert(w == "[", "shape"); for (u64 x : s) { u64 y = 0; st >> y; sym_assert(y == x, "shape"); } st >> w; sym_assert(w == "]", "shape"); st >> w; sym_assert(w == "data:", "heading"); st >> w; sym_assert(w == "{", "opening"); std::getline(st, l); u64 k = 0; u64 cols = s.size() < 2 ? A.size() : s.back(); std::vector<E> r(A.size());
  for (u64 i = 0; i < A.size(); i++) { E x = 0; st >> x; r[i] = x; } st >> w; sym_assert(w == "}", "closing"); (void)k; (void)cols; for (u64 i = 0; i < A.size(); i++) sym_assert(r[i] == A[i], "values in order"); }
HARNESS(print_f64) { std::vector<shp> p{{1}, {5}, {2, 3}, {3, 1, 2}, {2, 2, 1, 2}, {1, 1}, {4, 1}}; printed<double>(p[sym_choose(0, p.size() - 1)]); }
HARNESS(print_f32) { std::vector<shp> p{{3}, {3, 2}, {1, 2, 3}}; printed<float>(p[sym_choose(0, p.size() - 1)]); }
HARNESS(print_wide) { std::vector<shp> p{{300}, {60, 5}, {5, 60}}; printed<double>(p[sym_choose(0, p.size() - 1)]); }
HARNESS(print_rows) { std::stringstream st; tensor<double> t{{3, 2}, {1., 2., 3., 4., 5., 6.}}; st << t; std::string l; std::vector<u64> n; while (std::getline(st, l)) { std::stringstream q{l}; std::string w; u64 k = 0; while (q >> w) ++k; n.push_back(k); } sym_assert((n == std::vector<u64>{5, 1, 1, 2, 2, 2, 1}), "a line for every row"); }
HARNESS(long_history) { auto &s = get_default_session<tensor<double>>(); variable<tensor<double>> v{arb<double>({2, 3})}; s.run(v); auto dir = new_dir(), f = dir + "/file"; for (int k = 0; k < 20; k++) { auto A = snap(v.data()); s.save(f); tensor<double> t = v.data(); sym_fill(t.data(), t.size()); if (k % 3 == 2) { s.run(v); } s.restore(f); exactly(v.data(), {2, 3}, A, "value after many files"); t = v.data(); sym_fill(t.data(), t.size()); } std::remove(f.c_str()); std::remove(dir.c_str()); }
