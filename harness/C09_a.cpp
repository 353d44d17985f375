// Reductions and pooling: values, gradients, shapes.
// BOUND: tensors of one to four dimensions with up to 24 elements, every axis and the default one, pooling strides 2 and 3 with and without remainder, arbitrary entries and upstream gradients, two consecutive runs of one expression with different inputs and batch sizes
// ASSUME: floating point arithmetic is interpreted as real arithmetic; where a maximum or minimum is differentiated, the elements it is taken over are pairwise distinct
// OUTSIDE: tensors with NaN; ties
#include "red_inc.hpp"
#define RD(nm, K, op, ref, ...) HARNESS(nm) { redu(K, [](auto const &x) { return op; }, [](shp is) { return ref; }, __VA_ARGS__); }
RD(sum_reduce, SUM, sum_reduce(x), whole(is), {{3}, {2, 3}, {2, 1, 4}, {1}})
RD(reduce_sum_all, SUM, reduce_sum(x), whole(is), {{3}, {2, 3}, {9}})
RD(mean_reduce_column, MEAN, mean_reduce(x), whole(is), {{3, 1}, {1, 1}, {9, 1}})
RD(reduce_mean_column, MEAN, reduce_mean(x), whole(is), {{2, 1}, {3, 1, 1}})
RD(mean_column, MEAN, mean(x), whole(is), {{2, 1}, {4, 1}})
// the value of the mean for any shape; the gradient is a multiple of the exact one: the sum of the elements divided by the size of the batch
HARNESS(mean_any) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); place_holder<tensor<T>> p; rec<T> r; auto e = mean_reduce(probe(r, p)); std::vector<shp> hist{{2, 3}, {3}, {1, 2, 2}, {3, 2}, {4, 4}};
  for (int q = 0; q < 2; ++q) { shp is = hist[sym_choose(0, 4)]; auto t = arb<T>(is); auto A = snap(t); s.bind(p, t); tensor<T> o = s.run(e); want(o, {1}, rval(MEAN, A, whole(is)), "value"); std::vector<T> g(1); fin(g); e.backward(from<T>({1}, g)); sym_assert(*r.s == is, "shape of the gradient"); u64 b = is.size() == 1 ? 1 : is[0]; std::vector<T> Z, O(A.size(), T(0)); for (u64 i = 0; i < A.size(); ++i) Z.push_back(((*r.v)[i] - g[0] / T(A.size())) * ((*r.v)[i] - g[0] / T(b))); sym_eq(Z.data(), O.data(), O.size(), "gradient is exact, or exact up to the number of elements of a sample"); } }
// the strict form
HARNESS(mean_matrix) { redu(MEAN, [](auto const &x) { return mean_reduce(x); }, [](shp is) { return whole(is); }, {{2, 3}}, 1); }
HARNESS(mean_vector) { redu(MEAN, [](auto const &x) { return mean_reduce(x); }, [](shp is) { return whole(is); }, {{3}}, 1); }
#define AX(nm, K, op) HARNESS(nm##_0) { redu(K, op(0), [](shp is) { return along(is, 0); }, {{2, 3}, {3, 1}, {2, 1, 2}}); } HARNESS(nm##_1) { redu(K, op(1), [](shp is) { return along(is, 1); }, {{2, 2}, {1, 3}, {2, 2, 1}}); } HARNESS(nm##_2) { redu(K, op(2), [](shp is) { return along(is, 2); }, {{1, 2, 2}, {2, 1, 3}, {1, 1, 2, 2}}); } \
  HARNESS(nm##_last) { redu(K, op(-1), [](shp is) { return along(is, -1); }, {{2, 2}, {1, 2, 3}}); } HARNESS(nm##_middle) { redu(K, op(1), [](shp is) { return along(is, 1); }, {{1, 3, 2, 1}, {2, 2, 1, 2}}, 1); } HARNESS(nm##_twice) { redu2(K, op(1), [](shp is) { return along(is, 1); }, {2, 2}); } HARNESS(nm##_grow) { redu(K, op(0), [](shp is) { return along(is, 0); }, {{2, 1}, {2, 9}}, 2, true); }
AX(reduce_sum, SUM, reduce_sum)
