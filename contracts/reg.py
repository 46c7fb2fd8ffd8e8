"""MLPPReg: penalty terms, their derivatives and the regularised weights (C15)"""
from .common import *
from .activation import sign as _sign
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp", "core/activation.cpp", "core/stat.cpp", "core/reg.cpp"]
USES = ["lin_alg", "activation"]
R = 'MLPPReg::'
P = 'C15'
NONE, RIDGE, LASSO, ELASTIC, CLIP = (I(i) for i in range(5))
HALF = Q(1, 2)
def penalty(c, n, at, l, a, kind):
    """the penalty of the weights at(0..n-1): the mixing ratio a is the share of the absolute values"""
    sq = lambda: SUM(n, lambda k: mul(at(k), at(k)))
    ab = lambda: SUM(n, lambda k: rabs(at(k)))
    if c.branch(eq(kind, RIDGE)): return mul(HALF, mul(l, sq()))
    if c.branch(eq(kind, LASSO)): return mul(l, ab())
    if c.branch(eq(kind, ELASTIC)): return mul(l, add(mul(a, ab()), mul(mul(HALF, sub(RONE, a)), sq())))
    return RZERO
def slope(c, w, l, a, kind):
    if c.branch(eq(kind, RIDGE)): return lambda k: mul(l, w(k))
    if c.branch(eq(kind, LASSO)): return lambda k: mul(l, _sign(w(k)))
    if c.branch(eq(kind, ELASTIC)): return lambda k: mul(l, add(mul(a, _sign(w(k))), mul(sub(RONE, a), w(k))))
    if c.branch(eq(kind, CLIP)): return lambda k: ite(lt(a, w(k)), a, ite(lt(w(k), l), l, w(k)))
    return lambda k: RZERO
def regularised(c, w, l, a, kind):
    d = slope(c, w, l, a, kind)
    if c.branch(eq(kind, CLIP)): return d
    return lambda k: sub(w(k), d(k))
NAMED = {}
def both(nm, f, scalar=False):
    def v(c, this, o, l, a, kind):
        given(c, o); x = c.view(o)
        r = f(c, x.n, x.__getitem__, l, a, kind) if scalar else f(c, x.__getitem__, l, a, kind)
        return r if scalar else c.vec(x.n, r)
    def m(c, this, o, l, a, kind):
        given(c, o); x = c.view(o)
        r = f(c, x.len, x.__getitem__, l, a, kind) if scalar else f(c, x.__getitem__, l, a, kind)
        return r if scalar else c.mat(x.h, x.w, c.arr(r))
    NAMED[nm + 'v'], NAMED[nm + 'm'] = v, m
    contract(R + nm + 'v', props=P)(v); contract(R + nm + 'm', props=P)(m)
both('reg_term', penalty, True)
both('reg_deriv_term', slope); both('reg_weights', regularised)
@contract(R + 'reg_deriv_termvr', props=P)
def _(c, this, o, l, a, kind, j):
    given(c, o); x = c.view(o)
    c.require(band(le(ZERO, j), lt(j, x.n)), 'index in range')
    return slope(c, lambda k: x[k], l, a, kind)(j)
@contract(R + 'reg_deriv_termmr', props=P)
def _(c, this, o, l, a, kind, i, j):
    given(c, o); x = c.view(o)
    c.require(band(band(le(ZERO, i), lt(i, x.h)), band(le(ZERO, j), lt(j, x.w))), 'index in range')
    return slope(c, lambda k: x.at(i, k), l, a, kind)(j)
