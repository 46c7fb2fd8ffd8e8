"""Vocabulary shared by the contract files."""
from vf.term import *
from vf import term as tm
from vf.state import NULLO, NULLPTR, O, Ptr, Struct, UNDEF
from vf.registry import contract
from vf.spec import View
from vf.exec import rabs, approx_eq, CMP_EPSILON
INF = tm.var('$INF', 'R')
INT_MAX = I(2 ** 31 - 1)
def Q(a, b=1): return num(Fraction(a, b), 'R')
def f1(name): return lambda x: app(name, x)
def power_(x, p): return app('pow', x, p)
def canonical(n, arr):
    """the first n elements, zero elsewhere"""
    return LAM(lambda k: ite(band(le(ZERO, k), lt(k, n)), sel(arr, k), RZERO))
def order_stat(n, k, arr):
    """the k-th smallest of the first n elements (k from 0)"""
    if n.op == 'num' and 0 <= n.args[0] <= 4:
        xs = [sel(arr, I(i)) for i in range(int(n.args[0]))]
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                xs[j], xs[j + 1] = rmin(xs[j], xs[j + 1]), rmax(xs[j], xs[j + 1])
        r = RZERO
        for i in reversed(range(len(xs))): r = ite(eq(k, I(i)), xs[i], r)
        return r
    return uf('$order_stat', 'R', n, k, canonical(n, arr))
def count(n, pred):
    """how many of 0..n-1 satisfy pred"""
    return SUM(n, lambda t: ite(pred(t), ONE, ZERO), 'I')
def filtered(n, pred, val):
    """val(t) for the t in 0..n-1 that satisfy pred, in order: (how many, f(q))"""
    return count(n, pred), lambda q: val(FIRST(n, lambda t: band(pred(t), eq(count(t, pred), q))))
def given(c, *os): c.require(FALSE if any(c.null(o) for o in os) else TRUE, 'operands given')
