#include "sym.hpp"
using namespace vh;
typedef double T;
// storage shared by several tensors survives the destruction of any of them; element types other than double
HARNESS(lifetime) { tensor<T> keep; std::vector<T> V; { auto a = arb<T>({2, 3}); V = snap(a); tensor<T> b = a; keep = b; b = arb<T>({4}); } want(keep, {2, 3}, V, "kept by the last copy"); tensor<T> m = std::move(keep); want(m, {2, 3}, V, "moved"); tensor<T> n; n = std::move(m); want(n, {2, 3}, V, "move-assigned"); { auto &r = n; n = r; } want(n, {2, 3}, V, "self-assigned"); }
HARNESS(ids) { std::vector<int> v; tensor<T> a({1}), b({1}); tensor<float> c({1}); sym_assert(a.id() != b.id(), "different tensors have different ids"); tensor<T> d = a; sym_assert(d.id() == a.id(), "a copy has the id of the original"); d = b; sym_assert(d.id() == b.id(), "an assigned tensor has the id of the source"); }
HARNESS(nested) { auto a = arb<T>({2, 2}); auto A = snap(a); std::vector<tensor<T>> v; for (int i = 0; i < 3; ++i) v.push_back(a.deep_copy()); v.erase(v.begin()); v[0] += v[1]; std::vector<T> r; for (T x : A) r.push_back(x + x); want(v[0], {2, 2}, r, "vector of tensors"); want(v[1], {2, 2}, A, "vector of tensors"); want(a, {2, 2}, A, "kept"); }
