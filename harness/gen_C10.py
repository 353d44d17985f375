#!/usr/bin/env python3
# writes C10_*.cpp: every operator as a branch of a graph
E = {}
for n in 'relu relu6 silu sigmoid tanh softmax softplus softsign soft_sign selu negative_relu hard_sigmoid exponential swish mish lisht gelu crelu tank_shrink gaussian exp expm1 exp2 abs square negative sin cos atan asinh erf sinh cosh'.split(): E[n] = (f'{n}(x)', None)
for n in 'sqrt log log1p log2 log10 inverse cbrt'.split(): E[n] = (f'{n}(x)', (0.1, 4))
for n in 'asin acos atanh'.split(): E[n] = (f'{n}(x)', (-0.9, 0.9))
E['clip'] = ('clip(-1.0, 1.0)(x)', None); E['leaky_relu'] = ('leaky_relu(0.25)(x)', None); E['elu'] = ('elu(0.5)(x)', None); E['prelu'] = ('prelu(0.25)(x)', None)
E['add_c'] = ('x + 1.5', None); E['c_sub'] = ('1.5 - x', None); E['mul_c'] = ('x * 2.5', None); E['div_c'] = ('x / 2.5', None); E['val_mul'] = ('value{2.5} * x', None); E['add_val'] = ('x + value{2.5}', None)
E['reshape'] = ('reshape({3, 1})(reshape({3})(x))', None, 'reshape'); E['transpose'] = ('transpose(transpose(x))', None); E['flip'] = ('flip(1)(x)', None); E['expand'] = ('squeeze(1)(expand_dims(1)(x))', None); E['flatten'] = ('flatten(expand_dims(1)(x))', None)
E['twice'] = ('x + x', None); E['product'] = ('hadamard_product(x, x)', None); E['minimum'] = ('minimum(x, hadamard_product(x, x))', None); E['maximum'] = ('maximum(x, x + x)', None)
del E['reshape']
del E['crelu']
names = list(E); N = 6
for k in range(N):
    with open(f'C10_{"abcdef"[k]}.cpp', 'w') as f:
        if k == 0: f.write('''// Backpropagation through graphs: sums of branches, shared subexpressions, shared variables, networks.
// BOUND: each of about sixty operators on 2x3 tensors of arbitrary entries as one branch of a sum whose other branch is a variable (either order) and as one of two consumers of a shared subexpression; listed graphs with shared nodes, shared weights and up to three layers; arbitrary upstream gradients
// ASSUME: floating point arithmetic is interpreted as real arithmetic; kinks are excluded
// OUTSIDE: graphs that are not listed; rounding
''')
        f.write('#include "sym.hpp"\nusing namespace vh;\ntypedef double T;\n')
        for n in names[k::N]:
            e, d = E[n]; g = 'gv<T>({2, 3})' if d is None else f'gvb<T>({{2, 3}}, {d[0]}, {d[1]})'
            f.write(f'HARNESS(left_{n}) {{ gradcheck<T>("gradient", [](auto &x, auto &b) {{ return {e} + b; }}, {g}, gv<T>({{2, 3}})); }}\n')
            f.write(f'HARNESS(right_{n}) {{ gradcheck<T>("gradient", [](auto &x, auto &b) {{ return b + {e}; }}, {g}, gv<T>({{2, 3}})); }}\n')
            if d is None: f.write(f'HARNESS(shared_{n}) {{ gradcheck<T>("gradient", [](auto &a, auto &b) {{ auto x = a - b; return {e} + x; }}, gv<T>({{2, 3}}), gv<T>({{2, 3}})); }}\n')
            else: f.write(f'HARNESS(shared_{n}) {{ gradcheck<T>("gradient", [](auto &a) {{ auto x = negative(a); auto f = [](auto const &x) {{ return {e}; }}; return f(negative(x)) + x; }}, {g}); }}\n')
