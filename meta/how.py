CAUGHT = {}
HOW = dict(
C01='One harness per operator: run `op(x)` on a symbolic tensor, backpropagate a symbolic upstream gradient; `sym_grad` differentiates the DAG of the forward result and z3 must show every element of the library\'s gradient equal to `upstream * d forward`. The oracle is the derivative of the code\'s own forward pass, so it holds whatever the formula is.',
C02='One harness per operator: the output DAG is compared, element for element, with the mathematical definition written in the harness over the same symbolic inputs; shapes, a second run and the input are compared too.',
C03='Operators times pairs of shapes: values against a reference broadcast written with index arithmetic, gradients (which must come back in the operand\'s shape) against the derivative of the forward DAG.',
C04='gemm on guarded raw buffers in all transposition modes against the sum of products; product expressions against the same and their gradients against the derivative of the forward DAG.',
C05='Tensor operations and statistics against their definition over symbolic entries; the operands are compared afterwards.',
C06='Every element is a distinct solver variable, so a misplaced element is a failed equality; the memory model of the engine (bounds, lifetime, initialisation of every object) decides the "no access leaves" part.',
C07='Distinct symbolic elements show where everything went; the gradient of a rearrangement is the adjoint, obtained by differentiating the forward DAG. Histories bind two shapes in a row, in both orders.',
C08='A direct seven-loop correlation is the reference for values, image gradients and kernel gradients; the gradients are computed by the reference as well as by differentiating the forward DAG.',
C09='Values as nested `ite`s over the symbolic elements, gradients by differentiation; index results compared as integers.',
C10='Sixty operators placed as a branch of a sum and as one of two consumers of a node; selected graphs with sharing. The derivative of the forward DAG with respect to each variable is the oracle; the upstream tensor is compared with its snapshot.',
C11='Each operator: run and backpropagate on shape A, then on shape B; the second value and gradients must equal those of a fresh expression, for all entries of both tensors. Leaks of state show as dependence on the entries of the first binding.',
C12='Loss formulae written over the symbolic entries (with case splits for clipping); gradients by differentiation of the forward DAG.',
C13='Training steps with a free gradient at every step (a linear loss with symbolic coefficients supplies it); the update rule, written by hand, is iterated next to the library.',
C14='Losses with several uses of a variable and free regularisation factors; expected gradient = sum of the contributions + regularisation once; freezing in every order against "unchanged" and "trained".',
C15='The words of the Mersenne twister are free variables (`sym_rand`), so a dropout mask is decided for every draw; running statistics are iterated by hand over every sequence of up to four passes.',
C16='Bytes are solver variables (8-bit vectors); compress and decompress run on streams held in memory; every feasible dictionary search path is explored. Long concrete prefixes bring the dictionary next to the points where codes get wider; a copy of the current header made at each run, with the size of the dictionary replaced by 300 and 520, brings its reset within reach. For malformed streams the engine\'s memory model decides that nothing is touched outside, a diagnostic abort is accepted.',
C17='Save, overwrite, restore through the real stream formatting code; a formatted number keeps its symbolic value exactly if `max_digits10` digits are printed, and is a fresh value otherwise, so a loss of precision is a failed equality. Files live in a scratch directory.',
C18='Sequences of operations are chosen symbolically (`sym_choose`), contents are free; overlap, use after return, double return and leaks are violations of the memory model and of `sym_live_bytes`; `sym_fail_alloc` makes the n-th allocation fail.',
C19='Threads of the real `parallel` are executed under three orders; independently of the order, a happens-before relation (start, join, mutex) is kept and every pair of conflicting unordered accesses is a violation: races are decided for all schedules of the explored path, not found by luck. Confirmation is a native run under ThreadSanitizer. The same detection is on in every other check.',
C20='Address arithmetic on free 64-bit dimensions and indices: the pointer returned must equal base + row-major offset, as bit-vector formulae. Iterator laws with free positions and steps.',
C21='Layers against hand-written formulae over all parameters; training by hand-computed steps of linear neurons; options are free factors that must arrive at their parameter.',
C22='Complex arithmetic written over pairs of symbolic reals (matrices where the product is one).',
C23='For every combination of shapes/axes in the bound the harness states whether the operation is possible; possible: the result must be right and nothing may abort; impossible: the engine must reach the diagnostic (`sym_abort`), every other outcome - a result, an access outside the operands - is a violation. View indices are free.',
C24='File contents are free bytes (`sym_file` hooks the file buffer under std::ifstream); pixels and one-hot rows must equal them; damaged files must end in the diagnostic before anything outside the tensors is touched.',
)
