# writes C02_*.cpp : values of the element-wise operators against their mathematical definition
import os
D=os.path.dirname(os.path.abspath(__file__))
R=[] # name, expression, reference in x, box, type
std='acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 floor log log10 log1p log2 round sin sinh sqrt tan tanh trunc rint nearbyint'.split()
box={'acos':(-.9,.9),'asin':(-.9,.9),'acosh':(1.1,9),'atanh':(-.9,.9),'log':(.1,9),'log10':(.1,9),'log2':(.1,9),'log1p':(-.9,9),'sqrt':(.1,9),'tan':(-1.4,1.4)}
for n in std: R.append((n,f'{n}(a)',f'std::{n}(x)',box.get(n)))
for n,k in (('llrint','std::llrint(x)'),('llround','std::llround(x)'),('lrint','std::lrint(x)'),('lround','std::lround(x)')): R.append((n,f'{n}(a)',f'T({k})',(-100,100)))
R+= [('abs','abs(a)','x<0?-x:x',None),('fabs','fabs(a)','x<0?-x:x',None),('square','square(a)','x*x',None),('negative','negative(a)','-x',None),('uminus','-a','-x',None),('uplus','+a','x',None),('identity','identity(a)','x',None),
('sign','sign(a)','x>0?T(1):x<0?T(-1):T(0)',None),('inverse','inverse(a)','1/x',(0.001,1000)),('inverse_neg','inverse(a)','1/x',(-1000,-0.001)),
('soft_sign','soft_sign(a)','1/(1+std::exp(-40*x))',(-1,1)),('softsign','softsign(a)','x/(1+(x<0?-x:x))',None),('gaussian','gaussian(a)','std::exp(-x*x)',None),('selu','selu(a)','x>=0?T(1.0507)*x:T(1.0507)*T(1.67326)*(std::exp(x)-1)',None),
('softplus','softplus(a)','std::log(1+std::exp(x))',(-9,9)),('sigmoid','sigmoid(a)','1/(1+std::exp(-x))',None),('relu','relu(a)','x>0?x:T(0)',None),('relu6','relu6(a)','x>6?T(6):x>0?x:T(0)',None),('negative_relu','negative_relu(a)','x>0?-x:T(0)',None),
('leaky_relu','leaky_relu(0.25)(a)','x>0?x:x/4',None),('prelu','prelu(0.125)(a)','x>0?x:x/8',None),('elu','elu(1.5)(a)','x>0?x:T(1.5)*(std::exp(x)-1)',None),('exponential','exponential(a)','std::exp(x)',(-9,9)),
('hard_sigmoid','hard_sigmoid(a)','x>1?T(1):x<-1?T(0):(x+1)/2',None),('gelu','gelu(a)','x/2*(1+std::tanh(T(0.79788456080286535588)*(x+T(0.044715)*x*x*x)))',None),('swish','swish(a)','x/(1+std::exp(-x))',None),('silu','silu(a)','x/(1+std::exp(-x))',None),
('tank_shrink','tank_shrink(a)','x-std::tanh(x)',None),('mish','mish(a)','x*std::tanh(std::log(1+std::exp(x)))',(-9,9)),('lisht','lisht(a)','x*std::tanh(x)',None),
('unit_step','unit_step(a)','1/(1+std::exp(-40*x))',(-1,1)),('binary_step','binary_step(a)','1/(1+std::exp(-40*x))',(-1,1)),
('add_c','a + 1.75','x+T(1.75)',None),('c_add','1.75 + a','x+T(1.75)',None),('sub_c','a - 1.75','x-T(1.75)',None),('c_sub','1.75 - a','T(1.75)-x',None),('mul_c','a * 1.75','x*T(1.75)',None),('c_mul','1.75 * a','x*T(1.75)',None),('div_c','a / 1.75','x/T(1.75)',None),
('add_v','a + value{1.75}','x+T(1.75)',None),('v_add','value{1.75} + a','x+T(1.75)',None),('sub_v','a - value{1.75}','x-T(1.75)',None),('v_sub','value{1.75} - a','T(1.75)-x',None),('mul_v','a * value{1.75}','x*T(1.75)',None),('v_mul','value{1.75} * a','x*T(1.75)',None),
('clip','clip(-1.0, 2.0)(a)','x<-1?T(-1):x>2?T(2):x',None),('clip_lo','clip(0.5)(a)','x<0.5?T(0.5):x',None),
('ones_like','ones_like(a)','T(1)',None),('zeros_like','zeros_like(a)','T(0)',None),
]
shapes=['3,4','2,3','7','2,3,2','11']
N=6; out=['' for _ in range(N)]
for i,(n,e,r,b) in enumerate(R):
    t='double'; sh=shapes[i%len(shapes)]
    init=f'gvb<T>({{{sh}}}, {b[0]}, {b[1]})' if isinstance(b,tuple) else f'gv<T>({{{sh}}})'
    pre=''
    if b=='nz': pre='bool ok = true; for (auto x : q.v) ok = ok & (x != T(0)); sym_assume(ok); '
    out[i%N]+=f'HARNESS({n}) {{ typedef {t} T; auto q = {init}; {pre}auto a = variable<tensor<T>>{{from<T>(q.s, q.v)}}; auto e = {e}; auto &s = get_default_session<tensor<T>>(); tensor<T> o = s.run(e); std::vector<T> ref; for (T x : q.v) ref.push_back({r}); want(o, q.s, ref, "{n}"); tensor<T> o2 = s.run(e); want(o2, q.s, ref, "{n} again"); sym_eq(a.data().data(), q.v.data(), q.v.size(), "{n} input kept"); }}\n'
hdr='''// Values of the element-wise operators and activations (generated by gen_C02.py).
// BOUND: each operator is run twice on one tensor of 6 to 12 elements (shapes (3,4), (2,3), (7), (2,3,2), (11)) of arbitrary real values inside the operator's domain; every output element is compared with the mathematical definition, and the input tensor must be unchanged
// ASSUME: floating point arithmetic is interpreted as real arithmetic; std::exp, std::log, ... are interpreted by their algebraic identities or as uninterpreted functions shared by both sides
// OUTSIDE: rounding, overflow, NaN
'''
for i in range(N): open(f'{D}/C02_{"abcdef"[i]}.cpp','w').write((hdr if i==0 else '')+'#include "sym.hpp"\nusing namespace vh;\n'+out[i])
