REAL = 'Bounded: every assertion is decided by z3 for all values within the stated shapes; floating point is read as real arithmetic (rounding, overflow and NaN are outside); the compiler front end, the engine and z3 are trusted, counterexamples are confirmed on a native build.'
P = []
NA = []
def prop(id, title, statement, q, why, files, mech, over=('inputs',), note=REAL, **k): P.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, over=list(over), note=note, **k))
prop('C01', 'Backpropagation through a unary operator is its exact derivative',
 'For every unary element-wise operator and activation function the library offers, with or without parameters, running an expression and then backpropagating an arbitrary upstream gradient leaves in the variable exactly the upstream gradient times the derivative of what the forward pass computed. This holds at every input where the operator is differentiable.',
 'all input tensors and all upstream gradients of the checked shapes', 'the tests compare a handful of forward values and train a few networks; almost no operator has a test of its gradient, and a wrong derivative only slows training down',
 ['include/operation.hpp', 'include/activation.hpp'], [('unary operators', 'include/operation.hpp: make_unary_operator and the operators built on it'), ('activations', 'include/activation.hpp')])
prop('C02', 'Element-wise operators compute the mathematical function they name',
 'For every element-wise unary operator, activation and operation with a scalar, the tensor produced by running the expression holds, element for element, the documented mathematical function of the input, in a tensor of the same shape. Running it again gives the same result, and the input is left unchanged.',
 'all input tensors of the checked shapes within the domain of the operator', 'the tests evaluate a few operators at a few points',
 ['include/operation.hpp', 'include/activation.hpp'], [('forward actions', 'include/operation.hpp, include/activation.hpp'), ('iteration over elements, serial or parallel', 'include/utils/for_each.hpp')])
prop('C03', 'Binary operators: value and gradient are right under broadcasting',
 'Addition, subtraction, element-wise multiplication and division, hypot, atan2, maximum, minimum and equality of two expressions give, element for element, the mathematical result; the first five broadcast their operands as numpy does, and the static shape of the expression is the shape of the result. Each operand receives the exact gradient, summed over the positions it was broadcast to, in the shape of the operand, and neither operand is modified.',
 'all operand values, all upstream gradients, and the listed pairs of shapes', 'tests use equal shapes or one broadcast pattern and look at forward values only',
 ['include/operation.hpp', 'include/tensor.tcc'], [('broadcasting', 'include/tensor.tcc: broadcast_shape, broadcast_tensor, add, minus, elementwise_product'), ('binary operators', 'include/operation.hpp: make_binary_operator and the operators built on it')])
prop('C04', 'Matrix products and their gradients are exact',
 'The product of two matrices, given as raw buffers in any of the four transposition modes, as tensors (where a one-dimensional operand stands for a row on the left and a column on the right) or as expressions, is entry for entry the sum of products, writes nothing outside its output, does not depend on what the output held before and leaves the operands unchanged. Backpropagation through a product expression gives both operands their exact gradients, also when one variable is used on both sides.',
 'all entries and all sizes within the bounds', 'tests multiply a few fixed matrices',
 ['include/tensor.tcc', 'include/operation.hpp'], [('gemm', 'include/tensor.tcc: gemm_cpu, gemm, multiply'), ('product operator', 'include/operation.hpp: multiplication_context')])
prop('C05', 'Tensor arithmetic and statistics compute what they name',
 'Arithmetic between tensors and between tensors and scalars, the reductions (sum, mean, variance, standard deviation, maximum, minimum, along an axis or over all elements, with or without keeping the axis), the norms and the comparisons of tensors give the mathematical result in the right shape. Operands other than the assigned one are left unchanged.',
 'all entries of the checked shapes and every axis', 'tests evaluate a few hand-written tensors',
 ['include/tensor.hpp', 'include/tensor.tcc'], [('tensor arithmetic', 'include/tensor.tcc: operators, add, minus, elementwise_product'), ('statistics', 'include/tensor.tcc: sum, mean, variance, max, min, reduce')])
prop('C06', 'Tensors keep their elements when copied, resized and rearranged',
 'Constructing, copying, assigning, resizing, reshaping, slicing, concatenating, repeating and writing and reading tensors puts every element where the shape says it belongs and loses none; a deep copy shares nothing with its source, while a plain copy shares the elements. No access leaves the memory of the tensor.',
 'all entries of the checked shapes and sequences of operations', 'tests construct a few tensors and print them',
 ['include/tensor.hpp', 'include/tensor.tcc'], [('storage', 'include/tensor.hpp, include/tensor.tcc: tensor'), ('rearrangement', 'include/tensor.tcc: concatenate, repeat, squeeze, slice')])
prop('C07', 'Data-movement operators put every element, and its gradient, in its place',
 'Broadcasting, reshaping, flattening, squeezing, expanding, transposing, flipping, repeating, padding, cropping, up-sampling, concatenating and sliding-window expressions produce exactly the documented rearrangement, and their gradients are the adjoint of it, in the shape of the input. The static shape agrees with the computed one, and neither earlier runs with other shapes nor applying the same operator to another expression changes the result.',
 'all entries, upstream gradients, listed shapes and histories of two runs', 'tests run each operator once, on one shape, and look at the forward value only',
 ['include/operation.hpp'], [('operators', 'include/operation.hpp: broadcast, reshape, flatten, squeeze, expand_dims, transpose, flip, repeat, zero_padding_2d, cropping_2d, up_sampling_2d, concatenate, sliding_2d')], over=['inputs', 'histories'])
prop('C08', 'Convolutions compute the correlation and its exact gradients',
 'Two-dimensional convolution, for every stride, dilation and padding mode it accepts, is the correlation of the image with each kernel, where kernels are laid out as output channel, row, column, input channel; transposed convolution is its adjoint arrangement, enlarging the image by the stride. Image and kernel receive the exact gradients, the static shape agrees with the computed one, and the result does not depend on earlier runs with other batch sizes or image shapes.',
 'all images, kernels and upstream gradients of the checked geometries', 'tests convolve one fixed image and look at the forward value only',
 ['include/operation.hpp'], [('convolution', 'include/operation.hpp: img2col, conv2d, general_conv2d'), ('transposed convolution', 'include/operation.hpp: conv2d_transpose')], over=['inputs', 'histories', 'configurations'])
prop('C09', 'Reductions and pooling: values, gradients and shapes',
 'Sums, means, minima, maxima and indices of extrema over all elements or along any axis, and maximum and average pooling with any stride, give the mathematical result, and backpropagation sends each input exactly the gradient it is owed, zero where it does not contribute. Static shapes agree with computed ones and earlier runs leave no trace in later ones.',
 'all entries (pairwise distinct where an extremum is differentiated), upstream gradients, listed shapes and histories of two runs', 'tests reduce a few fixed tensors once',
 ['include/operation.hpp'], [('reductions', 'include/operation.hpp: sum_reduce, mean_reduce, reduce_min, reduce_max, reduce_sum, argmax, argmin'), ('pooling', 'include/operation.hpp: max_pooling_2d, average_pooling_2d')], over=['inputs', 'histories'])
prop('C10', 'Backpropagation through a graph follows the chain rule',
 'For expressions built from several operators, with sums of branches, shared subexpressions, variables used in several places and stacked layers, every variable receives the exact derivative of the result, accumulated over all paths. The gradient handed to backpropagation by the caller is not modified.',
 'all variable values and upstream gradients, for the listed graphs', 'tests train small networks until a loss is small; a wrong contribution of one path only slows that down',
 ['include/operation.hpp', 'include/activation.hpp', 'include/variable.hpp'], [('operators', 'include/operation.hpp: unary_operator, binary_operator'), ('accumulation', 'include/variable.hpp: variable::backward')], over=['inputs', 'programs'])
prop('C11', 'What an expression computes depends only on what is bound to it now',
 'Running and backpropagating an expression a second time, after its placeholders were bound to tensors of another batch size or shape, yields exactly the value and the gradients that a freshly built expression would yield. Buffers kept inside operators leave no trace, no access leaves their memory, the bound tensors are not modified, and a result of the same shape as before holds the new values.',
 'all entries and all ordered pairs of the listed shapes', 'tests build an expression, run it on one shape, and stop',
 ['include/operation.hpp', 'include/activation.hpp', 'include/session.hpp', 'include/place_holder.hpp'], [('cached buffers', 'include/operation.hpp, include/activation.hpp: forward_cache, backward_cache of every operator'), ('binding', 'include/session.hpp, include/place_holder.hpp')], over=['inputs', 'histories'])
prop('C12', 'Losses have the documented value and its gradient',
 'Squared, absolute, logarithmic and hinge losses, binary and categorical cross entropy (on probabilities and on logits, with and without label smoothing) and the loss objects built on them evaluate to the documented formula over all elements or averaged over the batch. The prediction receives its derivative: exactly, or, for losses that are means over several columns, scaled by the fixed ratio between the number of elements and the batch size. Labels and predictions are left unchanged, and a second run on data of another shape is as good as the first.',
 'all predictions and labels of the checked shapes within the domain of the loss, all upstream gradients', 'tests look at one value of a loss, or train until it is small',
 ['include/loss.hpp', 'include/operation.hpp', 'include/activation.hpp'], [('losses', 'include/loss.hpp'), ('cross entropy on logits', 'include/loss.hpp: cross_entropy_loss')], over=['inputs', 'histories'])
prop('C13', 'Optimizers apply the update rule they name',
 'Every training step with gradient descent, SGD (plain, with momentum, with Nesterov momentum, with decay), Adagrad, RMSprop, Adadelta or Adam changes each trainable variable by exactly the documented update of that rule, computed from the gradient of this step, the learning rate divided by the batch size, and the state accumulated over the previous steps. It consumes the gradient, leaves frozen variables and variables outside the loss unchanged, and one optimizer never mistakes the state of another for its own.',
 'all variable values, all gradients at every step, all learning rates in (0,1), sequences of up to five steps', 'tests train until a loss is small, which a wrong rule achieves as well',
 ['include/optimizer.hpp', 'include/variable.hpp'], [('update rules', 'include/optimizer.hpp: sgd, adagrad, rmsprop, adadelta, adam, gradient_descent'), ('state', 'include/variable.hpp: contexts')], over=['inputs', 'histories'])
prop('C14', 'A gradient is the sum over all uses plus the regularisation once',
 'After backpropagation the gradient of a variable is the sum of what flows back over every use of it in the expression, plus the derivative of its l1 and l2 regularisation exactly once, from the current values. A new forward pass starts from zero. Freezing a variable, a layer or a model, before or after expressions were built from it, leaves its values untouched by training, and unfreezing brings training back.',
 'all values, upstream gradients and regularisation factors, several training steps, all listed orders of building and freezing', 'tests train small networks without regularisation and never freeze anything',
 ['include/variable.hpp', 'include/model.hpp', 'include/layer.hpp', 'include/regularizer.hpp'], [('accumulation and regularisation', 'include/variable.hpp: variable::backward, forward'), ('freezing', 'include/variable.hpp, include/model.hpp: trainable, make_trainable')], over=['inputs', 'histories'])
prop('C15', 'Normalisation, dropout and random numbers follow their definition',
 'While training, batch normalization subtracts the average and divides by the deviation of the batch, learns the running statistics with the momentum given, and backpropagates the exact derivative; while predicting it applies the running statistics. Dropout draws a mask for every training pass, keeps an element or not by its own random number and the given rate, scales what it keeps, sends the gradient through the same mask, and is the identity while predicting. Random tensors hold successive draws of the distribution asked for, with the bounds, average, deviation or limits given, and stay within them.',
 'all entries, all random words, all sequences of training and prediction passes listed', 'random results are not compared by any test, and normalisation is only trained',
 ['include/operation.hpp', 'include/layer.hpp', 'include/tensor.hpp'], [('batch normalization', 'include/operation.hpp: normalization_batch, batch_normalization'), ('dropout', 'include/operation.hpp: drop_out'), ('random tensors', 'include/tensor.tcc: random, rand, randn, truncated_normal, poisson, glorot_uniform')], over=['inputs', 'histories'])
prop('C16', 'What is compressed is what is decompressed',
 'For every sequence of bytes, decompressing its compressed form reports success and yields the same bytes, whatever the bytes are and however the width of the codes grows. A stream that was not produced by the compressor is either rejected or yields a complete result; it never makes the decompressor read or write outside its memory.',
 'all byte sequences up to the bound, all pairs of bytes after long prefixes, all malformed streams up to the bound, all codes of all widths', 'no test of the compressor is among the tests that run',
 ['include/utils/lzw.hpp'], [('compress, decompress', 'include/utils/lzw.hpp'), ('bit streams', 'include/utils/lzw.hpp: CodeWriter, CodeReader')],
 note='Bounded: decided by z3 over bit-vectors for all bytes within the stated bounds; the compiler front end, the engine and z3 are trusted, counterexamples are confirmed on a native build.')
prop('C17', 'What is saved is what is restored',
 'Saving a session or the weights of a model and restoring it brings every variable the session has met back to exactly the value and shape it had, also in the expressions, models and copies that use it, and leaves gradients and other variables alone. Tensors written to a stream or a file are read back exactly, one after another; a printed tensor shows its shape and its values in order, a line for every row. Damaged files and files of another model are rejected.',
 'all values of all variables, in sessions of up to nine variables of any rank', 'the tests save a session once and compare a few values with a tolerance',
 ['include/session.hpp', 'include/tensor.tcc', 'include/model.hpp', 'include/utils/lzw.hpp'], [('sessions', 'include/session.hpp: save, restore'), ('tensors', 'include/tensor.tcc: write_tensor, read_tensor, save_tensor, load_tensor, operator <<'), ('models', 'include/model.hpp: save_weights, load_weights')], over=['inputs', 'histories'])
prop('C18', 'Memory handed out is live, exclusive and given back exactly once',
 'A block obtained from the memory cache or an allocator belongs to one owner until it is returned, is large enough and keeps its contents whatever is allocated, returned or garbage collected meanwhile. Every block taken from the system is returned once, with its size, when the cache ends. When the system is out of memory the cache first gives up what it hoards and then reports bad_alloc, leaving everything usable. The vectors built on them behave like std::vector in every sequence of operations, and the storage of tensors lives exactly as long as a tensor refers to it.',
 'all sequences of cache, vector and tensor operations up to the bound with arbitrary contents, every failing allocation in the listed situations', 'tests allocate and free a few times and never run out of memory',
 ['include/utils/cached_allocator.hpp', 'include/utils/buffered_allocator.hpp', 'include/utils/vector.hpp', 'include/tensor.hpp'], [('memory cache', 'include/utils/cached_allocator.hpp: memory_cache'), ('containers', 'include/utils/vector.hpp; include/utils/buffered_allocator.hpp')], over=['inputs', 'histories', 'faults'])
prop('C19', 'Parallel execution runs every index once and no two threads race',
 'parallel applies its function to every index of the range exactly once, whatever the range, its integer type, the threshold and the number of processors are, and returns after all of them are done. for_each applies its function to the corresponding elements of its sequences once, in parallel or not. The library operators yield the same value with any number of threads in any order, and no two threads access the same memory without synchronisation when one of them writes.',
 'all starting points of all index types, all listed lengths, thresholds and numbers of processors, three orders of the threads, every pair of unordered memory accesses', 'tests run with the processors and the schedule of one machine, on ranges starting at zero',
 ['include/utils/parallel.hpp', 'include/utils/for_each.hpp', 'include/tensor.tcc', 'include/operation.hpp'], [('slicing', 'include/utils/parallel.hpp: parallel'), ('element-wise loops', 'include/utils/for_each.hpp: for_each')], over=['inputs', 'schedules'])
prop('C20', 'Views, iterators and ranges address exactly the elements they name',
 'The element (i, j, ...) of a view of any rank is the element at the row-major offset of the viewed memory, for every index and every dimension; rows, columns and slices of a view are what the same indices select. A stride iterator is a random access iterator over every n-th element. range yields its values from the first to before the last, enumerate pairs each element with its position and refers to the very element, reverse yields the elements backwards. Identifiers of expressions, variables and placeholders are distinct, survive copies and order consistently.',
 'all indices and dimensions (64-bit), all offsets and steps listed, all contents', 'tests read and write a few elements of views of two or three shapes',
 ['include/utils/view.hpp', 'include/utils/stride_iterator.hpp', 'include/utils/range.hpp', 'include/utils/enumerate.hpp', 'include/utils/reverse.hpp', 'include/utils/list.hpp', 'include/utils/id.hpp', 'include/place_holder.hpp'], [('views', 'include/utils/view.hpp'), ('iterators', 'include/utils/stride_iterator.hpp, include/utils/range.hpp, include/utils/enumerate.hpp'), ('identity', 'include/utils/id.hpp')], over=['inputs'])
prop('C21', 'Layers and models compute and train what they are built from',
 'A layer is the expression it is documented as, on batches of any size: dense and (transposed) convolutional layers apply their kernel and bias, each option reaches the parameter it belongs to, an unused bias stays zero, and the static shape of the layer is the shape of what it computes. A model predicts the value of its expression with the current weights, without dropout and without changing weights or samples. Evaluating yields the average loss over the batches. Fitting takes one step per training batch in order, none for a validation batch, and reports the average errors, whatever the terminal looks like. A model applied to an expression is the composed expression, sharing its weights.',
 'all weights, samples, labels and regularisation factors of the listed architectures, batch sizes, splits and terminal widths', 'tests train a network until its error is small on random data, or only print',
 ['include/layer.hpp', 'include/model.hpp', 'include/utils/tqdm.hpp'], [('layers', 'include/layer.hpp'), ('models', 'include/model.hpp: model, compiled_model'), ('progress', 'include/utils/tqdm.hpp')], over=['inputs', 'histories'])
prop('C22', 'Complex expressions obey complex arithmetic',
 'Real part, imaginary part, magnitude, squared magnitude, phase, conjugate, polar form, sign, sum, difference and (matrix) product of complex expressions, and of complex with plain expressions on either side, evaluate to what complex arithmetic on the values of their parts yields, keeping the order of the factors of a product. Both parts of the result can be evaluated and re-evaluated on other data and other batches, and both backpropagate the exact derivative to both parts of every operand.',
 'all entries of both parts of all operands, for the listed shapes and combinations', 'the tests of complex expressions evaluate a single product',
 ['include/complex_operator.hpp'], [('complex arithmetic', 'include/complex_operator.hpp')], over=['inputs'])
prop('C23', 'Misuse is reported before anything outside the operands is touched',
 'With diagnostics on (the default), an operation that cannot work on its operands stops with a diagnostic instead of computing something else or touching memory outside them, and one that can work is never refused. This holds for: sums, differences, products, quotients and matrix products of tensors and of expressions whose shapes do not broadcast or fit; concatenation, squeezing, reduction, repetition and flipping along an axis there is not; reshaping or viewing a tensor as something of another size; operators on images of the wrong rank or number of channels, kernels larger than the padded image, crops that remove everything, strides, paddings, batch sizes and rates out of range; evaluating an unbound placeholder; training or evaluating a model without a batch size, with samples that do not fit or with fewer labels than samples.',
 'all pairs of shapes, axes, ranks, factors and options within the bounds, all contents', 'hardly any test passes operands that do not fit, and none can observe a read past the end',
 ['include/tensor.tcc', 'include/tensor.hpp', 'include/operation.hpp', 'include/model.hpp', 'include/place_holder.hpp', 'include/utils/better_assert.hpp', 'include/utils/view.hpp'], [('tensors', 'include/tensor.tcc'), ('operators', 'include/operation.hpp'), ('models', 'include/model.hpp')], over=['inputs'])
prop('C24', 'Datasets are loaded exactly as the files hold them',
 'Loading the MNIST or Fashion-MNIST data from a directory yields the pixels of the image files, sample by sample, in tensors of 28 x 28 images, and the labels as one-hot rows of ten, training and test data each from its own files. A missing file, a file cut inside its header or inside an image, and a label above nine are reported instead of being loaded, and nothing outside the buffers is read or written.',
 'all bytes of the headers and images, all labels, all damages within the bounds', 'no test loads a data set',
 ['include/dataset.hpp'], [('loaders', 'include/dataset.hpp: mnist::load_data, fashion_mnist::load_data')], over=['inputs'],
 note='Bounded: decided by z3 over bit-vectors for all bytes within the stated bounds; the compiler front end, the engine and z3 are trusted, counterexamples are confirmed on a native build.')
