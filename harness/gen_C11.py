#!/usr/bin/env python3
# writes C11_*.cpp: every operator over histories of bindings
exec(open('gen_C10.py').read().split("names = list(E)")[0])
E.update({k: (v, None) for k, v in {'softplus2': 'softplus(softplus(x))', 'crelu': 'crelu(x)', 'flatten2': 'flatten(x)', 'ones': 'ones_like(x) + x', 'zeros': 'zeros_like(x) - x', 'sign': 'sign(x)', 'identity': 'identity(x)',
  'sum': 'sum_reduce(x)', 'mean': 'mean_reduce(x)', 'rsum0': 'reduce_sum(0)(x)', 'rsum1': 'reduce_sum(1)(x)', 'repeat0': 'repeat(2, 0)(x)', 'repeat1': 'repeat(2, 1)(x)', 'broadcast_sub': 'x - mean_reduce(x)', 'transposed': 'transpose(x)',
  'expand_last': 'expand_dims(-1)(x)', 'concat': 'concat(x, sigmoid(x))', 'concat0': 'concatenate(0)(x, exp(x))', 'sq_err': 'mean_reduce(square(x - sigmoid(x)))', 'hyp': 'hypot(x, x + 1.0)', 'div': 'x / (exp(x) + 1.0)', 'gram': 'transpose(x) * x', 'gram2': 'x * transpose(x)', 'eq': 'equal(x, x, 0.5) + x', 'atan2': 'atan2(x, exp(x))'}.items()})
P4 = {'max_pool': 'max_pooling_2d(2)(x)', 'avg_pool': 'average_pooling_2d(2)(x)', 'up': 'up_sampling_2d(2)(x)', 'zpad': 'zero_padding_2d({1, 2, 1, 1})(x)', 'crop': 'cropping_2d({1})(x)', 'i2c': 'img2col(2, 2)(x)', 'i2c_s': 'img2col(2, 1, 1, 0, 2, 1)(x)', 'flip1': 'flip(1)(x)', 'flip2': 'flip(2)(x)', 'rep2': 'repeat(2, 2)(x)', 'rmaxx': 'reduce_max(2)(x)', 'rminx': 'reduce_min(1)(x)', 'flat4': 'flatten(x)', 'argmaxx': 'argmax(1)(x)', 'argminx': 'argmin(2)(x)'}
P3 = {'bn': ('normalization_batch(0.9)(x)', '{{1, 4, 3, 1}, {2, 2, 2, 1}, {3, 1, 1, 1}, {5, 1}}'), 'bn2': ('normalization_batch(0.9)(x)', '{{2, 2}, {3, 2}, {1, 2, 2}}'), 'reshape': ('reshape({3, 1})(x)', '{{2, 3}, {1, 3}, {3, 3}}'), 'reshape2': ('reshape({2, 3}, false)(x)', '{{3, 2}, {1, 6}, {6}, {2, 3}}'), 'concat3': ('concatenate(1)(x, square(x))', '{{2, 1, 2}, {2, 2, 1}, {1, 2, 2}}'), 'rsum': ('reduce_sum(-1)(x)', '{{4}, {2, 2}, {2, 1, 2}}'), 'vec': ('x + sum_reduce(x)', '{{4}, {2, 2}, {2, 1, 2}}')}
names = list(E); N = 6
for k in range(N):
    with open(f'C11_{"abcdef"[k]}.cpp', 'w') as f:
        if k == 0: f.write('''// What an expression computes depends only on what is bound now, not on earlier runs.
// BOUND: about ninety operators and compositions, each run and backpropagated twice (three times in thorough) on tensors of arbitrary entries whose shapes differ between the runs, with the same or another number of elements; compared with a fresh expression on the last binding; prediction in between for operators that distinguish it; losses and layers with weights
// ASSUME: floating point arithmetic is interpreted as real arithmetic
// OUTSIDE: dropout, which draws a mask, and running averages of batch normalisation (C15)
''')
        f.write('#include "hist.hpp"\n')
        for n in names[k::N]:
            e, d = E[n]; dom = '-1e9, 1e9' if d is None else f'{d[0]}, {d[1]}'
            f.write(f'HARNESS({n}) {{ hist([](auto const &x) {{ return {e}; }}, {{{{2, 3}}, {{3, 2}}, {{1, 2}}, {{3, 3}}}}, {"false" if d is None else "true"}, {dom}); }}\n')
        for n in list(P3)[k::N]: f.write(f'HARNESS({n}) {{ hist([](auto const &x) {{ return {P3[n][0]}; }}, {P3[n][1]}, false, 0, 0); }}\n')
        for n in list(P4)[k::N]: f.write(f'HARNESS({n}) {{ hist([](auto const &x) {{ return {P4[n]}; }}, {{{{1, 4, 3, 1}}, {{1, 3, 4, 1}}, {{2, 3, 3, 1}}, {{1, 3, 3, 2}}}}, false, 0, 0); }}\n')
