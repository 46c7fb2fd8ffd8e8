"""Numerical differentiation, Taylor approximation and iterative solvers over a user function (C22).
The user function is an unspecified symbol: the contracts hold for every function of its argument."""
from .common import *
from vf.state import FnPtr
FILES = ["core/numerical_analysis.cpp", "core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"]
USES = ["vector", "matrix", "tensor", "det"]
N = 'MLPPNumericalAnalysis::'
C = dict(props='C22', native=False)
E1, E2 = Q(1, 10 ** 10), Q(1, 10 ** 5)
def fr(f):
    """a function of one real"""
    return lambda x: uf(f.name, 'R', x)
def fv(f, n, at, opaque=False):
    """the value at the point at(k), k < n, shifted by the given amounts along the given axes"""
    def value(*steps):
        def el(k):
            r = at(k)
            for ax, e in steps: r = ite(eq(k, ax), add(r, e), r)
            return r
        return uf(f.name, 'R', n, tm.canonical_fn(n, el))
    def quotient(order, plain):
        """the difference quotient along some axes: by name in callers that only pass it on"""
        return lambda *ax: uf('$quotient%d_%s' % (order, f.name), 'R', n, tm.canonical_fn(n, at), *ax) if opaque else plain(value, *ax)
    value.p1 = quotient(1, p1); value.p2 = quotient(2, p2); value.p3 = quotient(3, p3)
    return value
def d1(f, x): return rdiv(sub(f(add(x, E1)), f(x)), E1)
def d2(f, x): return rdiv(addn([f(add(x, mul(Q(2), E2))), mul(Q(-2), f(add(x, E2))), f(x)], 'R'), mul(E2, E2))
def d3(f, x): return rdiv(addn([f(add(x, mul(Q(3), E2))), mul(Q(-3), f(add(x, mul(Q(2), E2)))), mul(Q(3), f(add(x, E2))), neg(f(x))], 'R'), mul(E2, mul(E2, E2)))
def p1(f, a): return rdiv(sub(f((a, E1)), f()), E1)
def p2(f, a, b): return rdiv(addn([f((a, E2), (b, E2)), neg(f((b, E2))), neg(f((a, E2))), f()], 'R'), mul(E2, E2))
def p3(f, a, b, c):
    A, B, Cc = (a, E2), (b, E2), (c, E2)
    return rdiv(addn([f(A, B, Cc), neg(f(B, Cc)), neg(f(A, Cc)), f(Cc), neg(f(A, B)), f(B), f(A), neg(f())], 'R'), mul(E2, mul(E2, E2)))
@contract(N + 'num_diffr', **C)
def _(c, this, f, x): return d1(fr(f), x)
@contract(N + 'num_diff_2r', **C)
def _(c, this, f, x): return d2(fr(f), x)
@contract(N + 'num_diff_3r', **C)
def _(c, this, f, x): return d3(fr(f), x)
def taylor(f, c0, x, order):
    h = sub(x, c0)
    r = f(c0)
    if order > 0: r = add(r, mul(d1(f, c0), h))
    if order > 1: r = add(r, mul(Q(1, 2), mul(d2(f, c0), mul(h, h))))
    if order > 2: r = add(r, mul(Q(1, 6), mul(d3(f, c0), mul(h, mul(h, h)))))
    return r
for i, nm in enumerate(('constant', 'linear', 'quadratic', 'cubic')):
    if i == 0: contract(N + nm + '_approximationr', **C)(lambda c, this, f, p: fr(f)(p))
    else: contract(N + nm + '_approximationr', **C)(lambda c, this, f, p, x, i=i: taylor(fr(f), p, x, i))
def at_point(c, f, x, *axes):
    c.require(FALSE if c.null(x) else TRUE, 'a point')
    v = c.view(x)
    for a in axes: c.require(band(le(ZERO, a), lt(a, v.n)), 'axes of the point')
    return fv(f, v.n, v.__getitem__, getattr(c.ex, 'opaque', False)), v
@contract(N + 'num_diffv', **C)
def _(c, this, f, x, a): return at_point(c, f, x, a)[0].p1(a)
@contract(N + 'num_diff_2v', **C)
def _(c, this, f, x, a, b): return at_point(c, f, x, a, b)[0].p2(a, b)
@contract(N + 'num_diff_3v', **C)
def _(c, this, f, x, a, b, d): return at_point(c, f, x, a, b, d)[0].p3(a, b, d)
@contract(N + 'jacobian', opaque=True, **C)
def _(c, this, f, x):
    g, v = at_point(c, f, x)
    return c.vec(v.n, lambda i: g.p1(i))
@contract(N + 'hessian', opaque=True, **C)
def _(c, this, f, x):
    g, v = at_point(c, f, x)
    return c.mat(v.n, v.n, lambda i, j: g.p2(i, j))
@contract(N + 'third_order_tensor', opaque=True, **C)
def _(c, this, f, x):
    g, v = at_point(c, f, x)
    return c.ten(v.n, v.n, v.n, lambda i, j, k: g.p3(i, j, k))
@contract(N + 'third_order_tensorvt', opaque=True, **C)
def _(c, this, f, x):
    g, v = at_point(c, f, x)
    return c.list(v.n, 'MLPPMatrix', lambda i: (v.n, v.n), lambda i: c.arr2(v.n, lambda j, k: g.p3(i, j, k)))
def vtaylor(c, f, p, x, order):
    g, P = at_point(c, f, p)
    r = g()
    if order:
        c.require(FALSE if c.null(x) else TRUE, 'a point'); X = c.view(x)
        c.require(eq(X.n, P.n), 'points of one space'); c.require(lt(ZERO, P.n), 'points of one space')
        h = lambda k: sub(X[k], P[k])
        r = add(r, SUM(P.n, lambda i: mul(g.p1(i), h(i))))
    if order > 1: r = add(r, mul(Q(1, 2), SUM(P.n, lambda i: mul(h(i), SUM(P.n, lambda j: mul(g.p2(i, j), h(j)))))))
    if order > 2: r = add(r, mul(Q(1, 6), SUM(P.n, lambda i: mul(h(i), SUM(P.n, lambda j: mul(SUM(P.n, lambda k: mul(g.p3(i, j, k), h(k))), h(j)))))))
    return r
for i, nm in enumerate(('constant', 'linear', 'quadratic', 'cubic')):
    if i == 0: contract(N + nm + '_approximationv', opaque=True, **C)(lambda c, this, f, p: vtaylor(c, f, p, None, 0))
    else: contract(N + nm + '_approximationv', opaque=True, **C)(lambda c, this, f, p, x, i=i: vtaylor(c, f, p, x, i))
@contract(N + 'laplacian', opaque=True, **C)
def _(c, this, f, x):
    g, v = at_point(c, f, x)
    return SUM(v.n, lambda i: g.p2(i, i))
@contract(N + 'growth_method', props='C22')
def _(c, this, C0, k, t): return mul(C0, app('exp', mul(k, t)))
def count(c, x):
    """the number of whole epochs in x"""
    return x
@contract(N + 'newton_raphson_method', **C)
def _(c, this, f, x0, n):
    g = fr(f)
    return FOLD(ceil0(n), [x0], lambda t, s: [sub(s[0], rdiv(g(s[0]), d1(g, s[0])))], 0)
@contract(N + 'halley_method', **C)
def _(c, this, f, x0, n):
    g = fr(f)
    def step(t, s):
        x = s[0]; fx, a, b = g(x), d1(g, x), d2(g, x)
        return [sub(x, rdiv(mul(Q(2), mul(fx, a)), sub(mul(Q(2), mul(a, a)), mul(fx, b))))]
    return FOLD(ceil0(n), [x0], step, 0)
def ceil0(n):
    n = tm.ceil_(n)
    return ite(le(ZERO, n), n, ZERO)
@contract(N + 'eulerian_methodr', **C)
def _(c, this, f, q0, q1, p, h):
    c.require(ne(h, RZERO), 'a step')
    g = fr(f)
    k = r2i(rdiv(sub(p, q0), h)); k = ite(le(ZERO, k), k, ZERO)
    return add(q1, SUM(k, lambda t: mul(h, g(add(q0, mul(i2r(t), h))))))
@contract(N + 'eulerian_methodv', **C)
def _(c, this, f, q0, q1, p, h):
    c.require(ne(h, RZERO), 'a step')
    g = lambda x, y: fv(f, I(2), lambda k: ite(eq(k, ZERO), x, y))()
    return FOLD(r2i(rdiv(sub(p, q0), h)), [q1], lambda t, s: [add(s[0], mul(h, g(add(q0, mul(i2r(t), h)), s[0])))], 0)
