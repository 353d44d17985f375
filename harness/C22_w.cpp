// BOUND: products of complex matrices of size 9 (real part and imaginary part), element-wise operations on 300 elements
#include "C22_inc.hpp"
HARNESS(wide_product) { cx({{9, 9}}, [](E) { (void)e; return a * b; }, [](W) { (void)e; return mul(a, b); }); }
HARNESS(wide_mixed) { cx({{9, 9}}, [](E) { (void)b; return a * e; }, [](W) { (void)b; return mulr(a, e); }); }
HARNESS(wide_elements) { cx({{3, 100}, {17, 1}}, [](E) { return a + b - e; }, [](W) { return cv{sub(add(a.r, b.r), e), add(a.i, b.i)}; }); }
HARNESS(wide_norm) { rx({{15, 20}, {2, 2}}, [](auto const &a) { return norm(a); }, [](V const &r, V const &i) { return add(had(r, r), had(i, i)); }); }
