// Convolutions: values, gradients, shapes.
// BOUND: images of up to 5x5 with up to 2 channels and batches of 1 to 3, kernels of up to 3x3 with up to 2 output channels, strides 1..2, dilations 1..2, valid and same padding, arbitrary entries and upstream gradients; two consecutive runs with different batch sizes; img2col with a changed image shape
// ASSUME: floating point arithmetic is interpreted as real arithmetic
// OUTSIDE: same padding with an even (dilated) kernel, which the library does not pad to the size of the input, or with a stride larger than the kernel; larger sizes
#include "C08_inc.hpp"
CV(valid_22, geo{2, 2}, {1, 3, 4, 1}, 2)
CV(valid_23_ch, geo{2, 3}, {1, 3, 4, 2}, 1)
CV(valid_22_ch2, geo{2, 2}, {1, 2, 3, 2}, 2, {2, 1})
CV(valid_31, geo{3, 1}, {1, 4, 2, 1}, 2)
CV(valid_13_ch, geo{1, 3}, {1, 1, 4, 2}, 1, {2, 3})
CV(valid_stride, geo{2, 2, 2, 2}, {1, 4, 5, 1}, 1)
CV(valid_stride_12, geo{2, 2, 1, 2}, {1, 3, 4, 1}, 1)
CV(valid_stride_21, geo{2, 1, 2, 1}, {1, 5, 2, 2}, 1)
CV(valid_dilation, geo{2, 2, 1, 1, 2, 2}, {1, 4, 3, 1}, 1)
CV(valid_dilation_12, geo{2, 2, 1, 1, 1, 2}, {1, 2, 4, 1}, 1)
CV(valid_dilation_21, geo{2, 2, 1, 1, 2, 1}, {1, 4, 2, 1}, 2)
CV(valid_11, geo{1, 1}, {1, 2, 2, 2}, 2)
CV(valid_stride_dilation, geo{2, 2, 2, 2, 2, 2}, {1, 5, 5, 1}, 1)
