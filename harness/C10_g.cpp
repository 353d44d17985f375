#include "sym.hpp"
using namespace vh;
typedef double T;
// shared nodes
HARNESS(diamond) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto y = hadamard_product(a, b); auto z = hadamard_product(y, y) + y; return z - hadamard_product(z, a); }, gv<T>({2}), gv<T>({2})); }
HARNESS(diamond_relu) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto y = relu(a + b); return relu(y - a) + relu(y - b) + y; }, gv<T>({2}), gv<T>({2})); }
HARNESS(three_uses) { gradcheck<T>("gradient", [](auto &a) { auto y = square(a); return y + hadamard_product(y, a) - relu(y - a); }, gv<T>({3})); }
HARNESS(copies) { gradcheck<T>("gradient", [](auto &a) { auto y = square(a); auto z = y; auto w = z; return hadamard_product(w, y) + hadamard_product(z, a); }, gv<T>({3})); }
HARNESS(broadcast_and_direct) { gradcheck<T>("gradient", [](auto &a, auto &b) { return hadamard_product(a, b) + b + a; }, gv<T>({2, 3}), gv<T>({3})); }
HARNESS(broadcast_branch) { gradcheck<T>("gradient", [](auto &a, auto &b) { return relu(a) + relu(b); }, gv<T>({2, 2}), gv<T>({2})); }
HARNESS(broadcast_branch_right) { gradcheck<T>("gradient", [](auto &a, auto &b) { return relu(b) + relu(a); }, gv<T>({2, 2}), gv<T>({2})); }
HARNESS(sum_of_sums) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto s = relu(a) + relu6(b); auto t = clip(-1.0, 1.0)(a) + leaky_relu(0.25)(b); return s + t; }, gv<T>({2}), gv<T>({2})); }
HARNESS(scalar_sums) { gradcheck<T>("gradient", [](auto &a, auto &b) { return sum_reduce(square(a - b)) + sum_reduce(relu(a)) + mean_reduce(b); }, gv<T>({3, 1}), gv<T>({3, 1})); }
HARNESS(concatenated) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto y = relu(a + b); return concatenate(y, a)() + concatenate(y, y)(); }, gv<T>({1, 2}), gv<T>({1, 2})); }
HARNESS(max_and_sum) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto m = maximum(a, b); return m + minimum(m, a); }, gv<T>({3}), gv<T>({3})); }
HARNESS(ratio) { gradcheck<T>("gradient", [](auto &a, auto &b) { auto s = a + b; return a / s + b / s; }, gvb<T>({2}, 0.5, 2), gvb<T>({2}, 0.5, 2)); }
// networks
HARNESS(dense) { gradcheck<T>("gradient", [](auto &x, auto &w, auto &b) { return relu(x * w + b); }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2})); }
HARNESS(two_layers) { gradcheck<T>("gradient", [](auto &x, auto &w, auto &b, auto &v) { return relu(x * w + b) * v; }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({1, 2}), gv<T>({2, 1})); }
HARNESS(two_sigmoids) { gradcheck<T>("gradient", [](auto &x, auto &w, auto &v) { return sigmoid(sigmoid(x * w) * v); }, gv<T>({1, 2}), gv<T>({2, 2}), gv<T>({2, 1})); }
HARNESS(shared_weights) { gradcheck<T>("gradient", [](auto &x, auto &w) { return (x * w) * w; }, gv<T>({2, 2}), gv<T>({2, 2})); }
HARNESS(shared_weights_relu) { gradcheck<T>("gradient", [](auto &x, auto &w) { return relu(relu(x * w) * w); }, gv<T>({1, 2}), gv<T>({2, 2})); }
HARNESS(residual) { gradcheck<T>("gradient", [](auto &x, auto &w) { auto h = relu(x); return h + relu(h * w); }, gv<T>({1, 2}), gv<T>({2, 2})); }
HARNESS(residual_right) { gradcheck<T>("gradient", [](auto &x, auto &w) { auto h = relu(x); return relu(h * w) + h; }, gv<T>({1, 2}), gv<T>({2, 2})); }
HARNESS(two_heads) { gradcheck<T>("gradient", [](auto &x, auto &w, auto &v) { auto h = tanh(x * w); return sum_reduce(h * v) + sum_reduce(square(h)); }, gv<T>({2, 2}), gv<T>({2, 2}), gv<T>({2, 1})); }
HARNESS(bias_reused) { gradcheck<T>("gradient", [](auto &x, auto &b) { return hadamard_product(relu(x + b), x) + b; }, gv<T>({2, 2}), gv<T>({2})); }
HARNESS(network_loss) { gradcheck<T>("gradient", [](auto &x, auto &w, auto &b) { return sum_reduce(square(elu(0.5)(x * w) + b)); }, gv<T>({2, 1}), gv<T>({1, 2}), gv<T>({2})); }
// the gradient handed to backward belongs to the caller
#define KEEP(nm, ex) HARNESS(keep_##nm) { learning_phase = 1; auto &s = get_default_session<tensor<T>>(); variable<tensor<T>> a{arb<T>({2, 3})}; auto e = ex; s.run(e); auto g = arb<T>({2, 3}); auto G = snap(g); e.backward(g); want(g, {2, 3}, G, "gradient argument kept"); }
KEEP(relu, relu(a)) KEEP(relu6, relu6(a)) KEEP(clip, clip(-1.0, 1.0)(a)) KEEP(leaky, leaky_relu(0.5)(a)) KEEP(elu, elu(0.5)(a)) KEEP(exponential, exponential(a)) KEEP(hard, hard_sigmoid(a)) KEEP(variable, a + a) KEEP(variable_direct, identity(a)) KEEP(add_c, a + 1.0) KEEP(minus, a - a) KEEP(mul, a * value{2.0}) KEEP(softmax, softmax(a)) KEEP(reshape, reshape({3})(a)) KEEP(negative, negative(a)) KEEP(selu, selu(a)) KEEP(flip, flip(0)(a)) KEEP(max, maximum(a, a + a)) KEEP(norm, normalization_batch()(a))
