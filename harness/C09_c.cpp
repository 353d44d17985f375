#include "red_inc.hpp"
HARNESS(average_2) { redu(MEAN, average_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 4, 2, 1}, {2, 2, 4, 1}, {1, 2, 2, 2}}); }
HARNESS(average_3) { redu(MEAN, average_pooling_2d(3), [](shp is) { return pool(is, 3); }, {{1, 3, 6, 1}, {2, 3, 3, 1}}); }
HARNESS(average_remainder) { redu(MEAN, average_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 3, 2, 1}, {1, 4, 3, 2}, {1, 5, 5, 1}}); }
HARNESS(average_twice) { redu2(MEAN, average_pooling_2d(2), [](shp is) { return pool(is, 2); }, {1, 2, 4, 1}); }
HARNESS(max_2) { redu(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 4, 2, 1}, {1, 2, 2, 2}}, 1); }
HARNESS(max_2_history) { redu(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 2, 2, 1}, {1, 2, 2, 1}}, 2, true); }
HARNESS(max_2_batches) { redu(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{2, 2, 2, 1}, {1, 2, 2, 1}}, 2, true); }
HARNESS(max_2_reshaped) { redu(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 2, 2, 1}, {1, 2, 4, 1}}, 2, true); }
HARNESS(max_3) { redu(MAX, max_pooling_2d(3), [](shp is) { return pool(is, 3); }, {{1, 3, 3, 1}}, 1); }
HARNESS(max_remainder) { redu(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {{1, 3, 2, 1}, {1, 3, 3, 1}, {1, 2, 3, 2}}, 1); }
HARNESS(max_twice) { redu2(MAX, max_pooling_2d(2), [](shp is) { return pool(is, 2); }, {1, 2, 2, 1}); }
