// BOUND: an image of 2x18x20x3 with two 3x3 kernels; an image of 1x260x260x1 (offsets beyond 16 bits) with a 1x1 kernel and stride 20
#include "C08_inc.hpp"
HARNESS(wide_image) { geo g{3, 3}; g.same = sym_choose(0, 1); auto f = [=](auto const &x, auto const &w) { return general_conv2d(1, 1, 1, 1, g.same ? "same" : "valid")(x, w); }; conv(f, g, {2, 18, 20, 3}, 2, {2}); }
HARNESS(wide_offsets) { geo g{1, 1, 20, 20}; conv([=](auto const &x, auto const &w) { return general_conv2d(20, 20, 1, 1, "valid")(x, w); }, g, {1, 260, 260, 1}, 1, {1}); }
HARNESS(wide_kernel) { geo g{9, 17}; conv([=](auto const &x, auto const &w) { return conv2d(11, 19)(x, w); }, g, {1, 11, 19, 1}, 1, {1}); }
