#include "red_inc.hpp"
#define AX(nm, K, op) HARNESS(nm##_0) { redu(K, op(0), [](shp is) { return along(is, 0); }, {{2, 3}, {3, 1}, {2, 1, 2}}); } HARNESS(nm##_1) { redu(K, op(1), [](shp is) { return along(is, 1); }, {{2, 2}, {1, 3}, {2, 2, 1}}); } HARNESS(nm##_2) { redu(K, op(2), [](shp is) { return along(is, 2); }, {{1, 2, 2}, {2, 1, 3}, {1, 1, 2, 2}}); } \
  HARNESS(nm##_last) { redu(K, op(-1), [](shp is) { return along(is, -1); }, {{2, 2}, {1, 2, 3}}); } HARNESS(nm##_middle) { redu(K, op(1), [](shp is) { return along(is, 1); }, {{1, 3, 2, 1}, {2, 2, 1, 2}}, 1); } HARNESS(nm##_twice) { redu2(K, op(1), [](shp is) { return along(is, 1); }, {2, 2}); } HARNESS(nm##_grow) { redu(K, op(0), [](shp is) { return along(is, 0); }, {{2, 1}, {2, 5}}, 2, true); }
AX(reduce_min, MIN, reduce_min)
AX(reduce_max, MAX, reduce_max)
#define AA(nm, K, op) HARNESS(nm##_0) { redu(K, op(0), [](shp is) { return along(is, 0); }, {{3, 2}, {2, 1, 2}}); } HARNESS(nm##_1) { redu(K, op(1), [](shp is) { return along(is, 1); }, {{2, 2}, {1, 3}, {2, 2, 1}}); } HARNESS(nm##_2) { redu(K, op(2), [](shp is) { return along(is, 2); }, {{1, 2, 2}, {2, 1, 3}}); } HARNESS(nm##_twice) { redu2(K, op(1), [](shp is) { return along(is, 1); }, {2, 2}); }
AA(argmax, ARGMAX, argmax)
AA(argmin, ARGMIN, argmin)
