# writes C03_*.cpp : value and gradient of the binary element-wise operators under broadcasting
import os
D=os.path.dirname(os.path.abspath(__file__))
pairs=[('eq','3,4','3,4'),('tail','3,4','4'),('tail2','2,3,2','3,2'),('swap','4','3,4'),('col','3,4','3,1'),('row','1,4','3,4'),('outer','3,1','1,4'),('outer2','2,1,3','4,1'),('one','1','2,3'),('one2','2,3','1,1'),('mid','2,3,2','2,1,2'),('long','11','11'),('lead','1,1,3','2,3'),('grow','3,1','4'),('big','9,2','1,2'),('bigcol','9,2','9,1')]
ops=[('plus',['a + b','plus(a, b)'],'x+y',None),('minus',['a - b','minus(a, b)'],'x-y',None),('prod',['elementwise_product(a, b)','elementwise_multiply(a, b)','hadamard_product(a, b)'],'x*y',None),('div',['a / b','divide(a, b)'],'x/y',(0.01,100)),('hypot',['hypot(a, b)'],'std::sqrt(x*x+y*y)',(0.1,100)),
 ('atan2',['atan2(a, b)'],'std::atan2(x,y)',(0.1,100)),('max',['maximum(a, b)'],'x>y?x:y','ne'),('min',['minimum(a, b)'],'x<y?x:y','ne')]
same=('atan2','max','min'); out={}
hdr='''// Value and gradient of the binary element-wise operators (generated by gen_C03.py).
// BOUND: operand shapes from 16 pairs covering equal shapes, missing leading dimensions on either side, size-1 dimensions on either or both sides, and more than 8 rows; arbitrary real operand values inside the operator's domain (x/y and hypot: positive); arbitrary upstream gradient; maximum and minimum: no two compared elements are equal
// ASSUME: floating point arithmetic is interpreted as real arithmetic; std::exp, std::atan2, ... are interpreted by their algebraic identities or as uninterpreted functions shared by both sides
// OUTSIDE: rounding, overflow, NaN; gradients at points where the operator is not differentiable
'''
TU={'plus':'a','minus':'b','prod':'c','div':'d','hypot':'e','atan2':'f','max':'f','min':'e'}
for (o,es,r,box) in ops:
    k=0
    for (n,A,B) in pairs:
        if o in same and n not in ('eq','long'): continue
        e=es[k%len(es)]; k+=1
        g=lambda s: f'gvb<T>({{{s}}}, {box[0]}, {box[1]})' if isinstance(box,tuple) else f'gv<T>({{{s}}})'
        if o=='div': ga=f'gv<T>({{{A}}})'
        else: ga=g(A)
        pre='for (u64 i = 0; i < qa.v.size(); ++i) sym_assume(qa.v[i] != qb.v[i]); ' if box=='ne' else ''
        out.setdefault(TU[o],[]).append(f'HARNESS({o}_{n}) {{ typedef double T; auto qa = {ga}; auto qb = {g(B)}; {pre}bin<T>("{o} {n}", [](auto &a, auto &b) {{ return {e}; }}, [](T x, T y) {{ return {r}; }}, qa, qb); }}\n')
out['f'].append('''HARNESS(equal_eq) { typedef double T; auto qa = gv<T>({3,4}), qb = gv<T>({3,4}); val<T>("equal", [](auto &a, auto &b) { return equal(a, b, 0.5); }, [](T x, T y) { T d = x > y ? x - y : y - x; return d > T(0.5) ? T(0) : T(1); }, qa, qb); }
''')
for n,e,r in (('vadd','a + value{1.25}','x+T(1.25)'),('addv','value{1.25} + a','x+T(1.25)'),('subv','a - value{1.25}','x-T(1.25)'),('vsub','value{1.25} - a','T(1.25)-x'),('mulv','a * value{1.25}','x*T(1.25)'),('vmul','value{1.25} * a','x*T(1.25)'),('maxv','maximum(a, value{0.0})','x>0?x:T(0)'),('vmax','maximum(value{0.0}, a)','x>0?x:T(0)'),('minv','minimum(a, value{0.0})','x<0?x:T(0)')):
    out['f' if n<'s' else 'b'].append(f'HARNESS({n}) {{ typedef double T; auto q = gv<T>({{3,3}}); for (T x : q.v) sym_assume(x != 0); un<T>("{n}", [](auto &a) {{ return {e}; }}, [](T x) {{ return {r}; }}, q); }}\n')
out['a'].append('''HARNESS(plus_const) { typedef double T; auto q = gv<T>({3,4}); auto c = arb<T>({4}); auto k = constant<tensor<T>>{c}; auto v = snap(c); val1<T>("constant", [&](auto &a) { return a + k; }, [&](u64 i, T x) { return x + v[i % 4]; }, q); }
HARNESS(const_prod) { typedef double T; auto q = gv<T>({3,4}); auto c = arb<T>({4}); auto k = constant<tensor<T>>{c}; auto v = snap(c); val1<T>("constant", [&](auto &a) { return elementwise_product(k, a); }, [&](u64 i, T x) { return x * v[i % 4]; }, q); }
''')
common='''#include "sym.hpp"
using namespace vh;
inline shp bshape(shp a, shp b) { while (a.size() < b.size()) a.insert(a.begin(), 1); while (b.size() < a.size()) b.insert(b.begin(), 1); for (u64 i = 0; i < a.size(); ++i) if (a[i] == 1) a[i] = b[i]; return a; }
inline u64 bidx(u64 flat, shp const &o, shp const &a) { u64 off = 0, mul = 1; for (u64 k = 0; k < o.size(); ++k) { u64 d = o.size() - 1 - k, c = flat % o[d]; flat /= o[d]; if (k < a.size()) { u64 e = a[a.size() - 1 - k]; off += (e == 1 ? 0 : c) * mul; mul *= e; } } return off; }
template <typename T, typename F, typename R> void val(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) {
  auto a = variable<tensor<T>>{from<T>(qa.s, qa.v)}; auto b = variable<tensor<T>>{from<T>(qb.s, qb.v)}; auto e = f(a, b); auto &s = get_default_session<tensor<T>>();
  shp o = bshape(qa.s, qb.s); std::vector<T> ref; for (u64 i = 0; i < prod(o); ++i) ref.push_back(r(qa.v[bidx(i, o, qa.s)], qb.v[bidx(i, o, qb.s)]));
  sym_assert(same_shape(e.shape(), o), "static shape");
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, o, ref, l); }
  sym_eq(a.data().data(), qa.v.data(), qa.v.size(), "left operand kept"); sym_eq(b.data().data(), qb.v.data(), qb.v.size(), "right operand kept"); }
template <typename T, typename F, typename R> void bin(const char *l, F f, R r, gvar<T> const &qa, gvar<T> const &qb) { val<T>(l, f, r, qa, qb); gradcheck<T>(l, f, qa, qb); }
template <typename T, typename F, typename R> void val1(const char *l, F f, R r, gvar<T> const &q) {
  auto a = variable<tensor<T>>{from<T>(q.s, q.v)}; auto e = f(a); auto &s = get_default_session<tensor<T>>(); std::vector<T> ref; for (u64 i = 0; i < q.v.size(); ++i) ref.push_back(r(i, q.v[i]));
  for (int k = 0; k < 2; ++k) { tensor<T> t = s.run(e); want(t, q.s, ref, l); } gradcheck<T>(l, f, q); }
template <typename T, typename F, typename R> void un(const char *l, F f, R r, gvar<T> const &q) { val1<T>(l, f, [&](u64, T x) { return r(x); }, q); }
'''
for i in sorted(out): open(f'{D}/C03_{i}.cpp','w').write((hdr if i=='a' else '')+common+''.join(out[i]))
