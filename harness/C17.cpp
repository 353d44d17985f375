// Saving and restoring: sessions, models and tensors come back exactly.
// BOUND: sessions of 1 to 9 variables of rank 1 to 4 (up to 24 elements, float and double) with arbitrary values, saved, overwritten by arbitrary values or by training, and restored up to twice from two files; tensors of the listed shapes written one after another into one stream; model weights of one and two dense layers; damaged and foreign files listed
// ASSUME: floating point arithmetic is interpreted as real arithmetic; a value printed with max_digits10 digits is read back exactly
// OUTSIDE: infinities, NaN and subnormal numbers in text; sessions restored in another process
#include "sym.hpp"
#include <fstream>
#include <unistd.h>
using namespace vh;
typedef double T;
struct scratch { std::string d, f; scratch() { d = new_dir(); f = d + "/file"; } ~scratch() { std::remove(f.c_str()); std::remove((f + ".tmp").c_str()); std::remove(d.c_str()); } };
static bool exists(std::string const &f) { std::ifstream i{f}; return i.good(); }
// every value comes back as it was, to the last bit
template <typename E> static void exactly(tensor<E> const &t, shp const &s, std::vector<E> const &v, const char *label) { sym_assert(same_shape(t, s), "shape"); sym_assert(t.size() == v.size(), "size"); for (u64 i = 0; i < v.size(); i++) sym_assert(t.data()[i] == v[i], label); }
template <typename E> struct store { std::vector<shp> s; std::vector<std::vector<E>> v; std::vector<variable<tensor<E>>> var; };
template <typename E> static store<E> make(std::vector<shp> const &ss) { store<E> r; for (auto const &s : ss) { r.s.push_back(s); auto t = arb<E>(s); r.v.push_back(snap(t)); r.var.emplace_back(t); } return r; }
template <typename E> static void visit(store<E> &r) { auto &s = get_default_session<tensor<E>>(); for (auto &v : r.var) s.run(v); }
template <typename E> static void overwrite(store<E> &r) { for (auto &v : r.var) { tensor<E> t = v.data(); sym_fill(t.data(), t.size()); } }
template <typename E> static void check(store<E> &r) { for (u64 i = 0; i < r.var.size(); i++) exactly(r.var[i].data(), r.s[i], r.v[i], "value of a variable"); }
template <typename E> static void save_restore(std::vector<shp> const &ss) {
  auto &s = get_default_session<tensor<E>>(); auto r = make<E>(ss); visit(r); scratch a; s.serialize(a.f); sym_assert(exists(a.f), "the file is there"); sym_assert(!exists(a.f + ".tmp"), "nothing else is left"); check(r); overwrite(r); s.deserialize(a.f); sym_assert(exists(a.f), "the file is kept"); sym_assert(!exists(a.f + ".tmp"), "nothing else is left"); check(r);
  visit(r); check(r); overwrite(r); s.deserialize(a.f); check(r); }
HARNESS(one_f64) { save_restore<double>({{2, 3}}); }
HARNESS(one_f32) { save_restore<float>({{2, 3}}); }
HARNESS(ranks_f64) { save_restore<double>({{1}, {7}, {2, 3}, {3, 2}, {2, 3, 2}, {2, 2, 3, 2}, {1, 1}, {5, 1}, {1, 4}}); }
HARNESS(ranks_f32) { save_restore<float>({{1}, {7}, {2, 3}, {3, 2}, {2, 3, 2}, {2, 2, 3, 2}, {1, 1}, {5, 1}, {1, 4}}); }
HARNESS(two_files) {
  auto &s = get_default_session<tensor<T>>(); auto r = make<T>({{2, 2}, {3}}); visit(r); scratch a, b; s.save(a.f); auto first = r.v; overwrite(r); for (u64 i = 0; i < 2; i++) r.v[i] = snap(r.var[i].data()); auto second = r.v; s.save(b.f);
  s.restore(a.f); r.v = first; check(r); s.restore(b.f); r.v = second; check(r); s.restore(a.f); r.v = first; check(r); }
HARNESS(over_an_old_file) {
  auto &s = get_default_session<tensor<T>>(); auto r = make<T>({{2, 6}}); visit(r); scratch a; { std::ofstream o{a.f}; for (int i = 0; i < 400; i++) o << "left over from something else "; } { std::ofstream o{a.f + ".tmp"}; for (int i = 0; i < 400; i++) o << "left over from something else "; } s.save(a.f); overwrite(r); s.restore(a.f); check(r); }
HARNESS(gradients_kept) {
  auto &s = get_default_session<tensor<T>>(); learning_phase = 1; auto r = make<T>({{2, 3}}); auto &v = r.var[0]; auto e = hadamard_product(v, v); s.run(e); e.backward(arb<T>({2, 3})); auto g = snap(v.gradient()); scratch a; s.save(a.f); exactly(v.gradient(), {2, 3}, g, "gradient"); overwrite(r); s.restore(a.f); check(r); exactly(v.gradient(), {2, 3}, g, "gradient"); }
HARNESS(used_by_expressions) {
  auto &s = get_default_session<tensor<T>>(); learning_phase = 1; auto r = make<T>({{3, 2}, {2}}); auto x = arb<T>({2, 3}); auto xs = snap(x); place_holder<tensor<T>> p; auto e = p * r.var[0] + r.var[1]; s.bind(p, x); auto y0 = snap(s.run(e)); scratch a; s.save(a.f); overwrite(r); s.restore(a.f);
  tensor<T> y = s.run(e).deep_copy(); want(y, {2, 2}, y0, "result"); std::vector<T> ref(4); for (u64 i = 0; i < 2; i++) for (u64 j = 0; j < 2; j++) { T q = r.v[1][j]; for (u64 k = 0; k < 3; k++) q += xs[i * 3 + k] * r.v[0][k * 2 + j]; ref[i * 2 + j] = q; } want(y, {2, 2}, ref, "result"); }
HARNESS(copies_of_a_variable) { auto &s = get_default_session<tensor<T>>(); auto r = make<T>({{5}}); auto c = r.var[0]; visit(r); s.run(c); scratch a; s.save(a.f); overwrite(r); s.restore(a.f); check(r); exactly(c.data(), {5}, r.v[0], "a copy"); }
// only what the session has met is saved, and what it has not met is left alone
HARNESS(others_untouched) { auto &s = get_default_session<tensor<T>>(); auto r = make<T>({{3}}); visit(r); scratch a; s.save(a.f); auto q = make<T>({{3}}); visit(q); overwrite(r); overwrite(q); auto now = snap(q.var[0].data()); s.restore(a.f); check(r); exactly(q.var[0].data(), {3}, now, "a later variable"); }
HARNESS(trained) {
  auto &s = get_default_session<tensor<T>>(); learning_phase = 1; auto r = make<T>({{3, 1}}); place_holder<tensor<T>> x, t; auto loss = sum_reduce(square(x * r.var[0] - t)); auto opt = sgd{loss, 1, T(0.5)}; visit(r); scratch a; s.save(a.f); s.bind(x, arb<T>({2, 3})); s.bind(t, arb<T>({2, 1})); for (int k = 0; k < 2; k++) { s.run(loss); s.run(opt); } s.restore(a.f); check(r); }
template <typename M> static void weights(M &&m, u64 in, u64 out) {
  auto &s = get_default_session<tensor<float>>(); auto x = arb<float>({2, in}); m.predict(x); std::vector<std::pair<variable<tensor<float>>, std::vector<float>>> vs; for (auto &[id, v] : s.variables_) { tensor<float> d = v.data(); sym_fill(d.data(), d.size()); vs.push_back({v, snap(d)}); }
  auto y0 = snap(m.predict(x)); scratch a; m.save_weights(a.f); for (auto &[v, d] : vs) { tensor<float> t = v.data(); sym_fill(t.data(), t.size()); } m.predict(x); m.load_weights(a.f); for (auto &[v, d] : vs) sym_eq(v.data().data(), d.data(), d.size(), "weights"); tensor<float> y = m.predict(x); want(y, {2, out}, y0, "prediction"); }
HARNESS(model_dense) { auto i = Input({3}); auto o = Dense(2)(i); weights(model{i, o}, 3, 2); }
HARNESS(model_two_dense) { auto i = Input({2}); auto h = Dense(3)(i); auto o = Dense(1, false)(h); weights(model{i, o}, 2, 1); }
// tensors
template <typename E> static void stream(std::vector<shp> const &ss) {
  std::stringstream st; st.precision(std::numeric_limits<E>::max_digits10); std::vector<std::vector<E>> v; for (auto const &s : ss) { auto t = arb<E>(s); v.push_back(snap(t)); write_tensor(st, t); exactly(t, s, v.back(), "the tensor written"); }
  for (u64 i = 0; i < ss.size(); i++) { tensor<E> t; if (i % 3 == 1) t = arb<E>({2, 2}); if (i % 3 == 2) t = arb<E>(ss[i]); read_tensor(st, t); exactly(t, ss[i], v[i], "the tensor read"); } }
HARNESS(stream_f64) { stream<double>({{1}, {3}, {2, 3}, {3, 1, 2}, {4}, {2, 2}, {1, 1, 1, 1}, {2, 1, 2, 3}, {1, 9}, {9, 1}}); }
HARNESS(stream_f32) { stream<float>({{1}, {3}, {2, 3}, {3, 1, 2}, {4}, {2, 2}, {1, 1, 1, 1}, {2, 1, 2, 3}, {1, 9}, {9, 1}}); }
template <typename E> static void disk(shp const &s) { auto t = arb<E>(s); auto v = snap(t); scratch a; save_tensor(a.f, t); exactly(t, s, v, "the tensor saved"); auto u = load_tensor<E>(a.f); exactly(u, s, v, "the tensor loaded"); sym_fill(t.data(), t.size()); save_tensor(a.f, t); v = snap(t); u = load_tensor<E>(a.f); exactly(u, s, v, "the tensor loaded"); }
HARNESS(disk_f64) { disk<double>({2, 3}); disk<double>({5}); disk<double>({2, 1, 3, 2}); }
HARNESS(disk_f32) { disk<float>({2, 3}); disk<float>({5}); disk<float>({2, 1, 3, 2}); }
// damaged and foreign files are rejected
static void pack(std::string const &f, std::string const &text, u64 drop = 0) { std::istringstream is{text}; std::ostringstream os; lzw::compress(is, os); auto z = os.str(); z.resize(z.size() - drop); std::ofstream o{f, std::ios_base::binary}; o.write(z.data(), z.size()); }
static void rejected(std::string const &f) { sym_abort(1); get_default_session<tensor<T>>().restore(f); sym_assert(false, "rejected"); }
HARNESS(foreign_variable) { auto r = make<T>({{2}}); visit(r); scratch a; pack(a.f, "987654 \n2 \n1 2 \n"); rejected(a.f); }
HARNESS(too_few_values) { auto r = make<T>({{2}}); visit(r); scratch a; pack(a.f, std::to_string(r.var[0].id()) + " \n3 \n1 2 \n"); rejected(a.f); }
HARNESS(too_many_values) { auto r = make<T>({{2}}); visit(r); scratch a; pack(a.f, std::to_string(r.var[0].id()) + " \n2 \n1 2 3 \n"); rejected(a.f); }
HARNESS(truncated) { auto r = make<T>({{2}}); visit(r); scratch a; pack(a.f, std::to_string(r.var[0].id()) + " \n2 \n1 2 \n", 3); rejected(a.f); }
HARNESS(missing_tensor) { auto r = make<T>({{2}, {1}}); visit(r); scratch a; pack(a.f, std::to_string(r.var[0].id()) + " " + std::to_string(r.var[1].id()) + " \n2 \n1 2 \n"); rejected(a.f); }
HARNESS(other_shape) { auto r = make<T>({{2}}); visit(r); scratch a; pack(a.f, std::to_string(r.var[0].id()) + " \n1 2 \n3 4 \n"); get_default_session<tensor<T>>().restore(a.f); T ref[2] = {3, 4}; exactly(r.var[0].data(), {1, 2}, std::vector<T>{ref[0], ref[1]}, "the tensor of the file"); }
// results remembered for one run
HARNESS(forward_results) { auto &s = get_default_session<tensor<T>>(); auto a = arb<T>({3}), b = arb<T>({2}), c = arb<T>({4}); auto av = snap(a), bv = snap(b), cv = snap(c); s.clear_forward_cache(); s.update_forward_cache(4, a); s.update_forward_cache(7, b); exactly(s.query_forward_cache(4), {3}, av, "remembered"); exactly(s.query_forward_cache(7), {2}, bv, "remembered"); sym_assert(s.query_forward_cache(5).size() == 0, "unknown"); s.update_forward_cache(4, c); exactly(s.query_forward_cache(4), {4}, cv, "remembered"); variable<tensor<T>> v{arb<T>({2})}; s.run(v); sym_assert(s.query_forward_cache(4).size() == 0 && s.query_forward_cache(7).size() == 0, "forgotten"); }
