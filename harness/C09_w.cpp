// BOUND: averages and poolings of images of 10x36, reductions over 70 elements, maxima over 9, sums over 300
#include "red_inc.hpp"
HARNESS(wide_average_pooling) { redu(MEAN, average_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 10, 36, 1}}, 1); }
HARNESS(wide_max_pooling) { redu(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 4, 36, 1}}, 1); }
HARNESS(wide_sum) { redu(SUM, reduce_sum(1), [](shp is) { return along(is, 1); }, {{3, 70, 2}}, 1); }
HARNESS(wide_sum_all) { redu(SUM, [](auto const &x) { return sum_reduce(x); }, [](shp is) { return whole(is); }, {{3, 100}}, 1); }
HARNESS(wide_max) { redu(MAX, reduce_max(1), [](shp is) { return along(is, 1); }, {{3, 9}}, 1); }
HARNESS(wide_argmax) { redu(ARGMAX, argmax(0), [](shp is) { return along(is, 0); }, {{9, 2}}, 1); }
