"""MLPPCost: cost values, their gradients, selection by identifier (C14)"""
from .common import *
from vf.state import FnPtr
from . import reg
FILES = reg.FILES + ["core/cost.cpp"]
USES = ["lin_alg", "reg"]
K = 'MLPPCost::'
P = 'C14'
log_, sqrt_ = f1('log'), f1('sqrt')
EPS = num(Fraction('1e-8'), 'R')
def ne2(x, y): return bor(ne(x.w, y.w), ne(x.h, y.h))
NAMED = {}
def named(name):
    def deco(f):
        NAMED[name] = f; contract(K + name, props=P)(f); return f
    return deco
def n_of(x): return x.n if x.vector else x.len
def differ(x, y): return ne(x.n, y.n) if x.vector else ne2(x, y)
def like(c, x, f): return c.vec(x.n, f) if x.vector else c.mat(x.h, x.w, c.arr(f))
def vw(c, o, t):
    v = c.view(o); v.vector = t == 'v'; return v
def value(nm, term, finish, deriv=False):
    """the cost: finish(sum over the elements of term(y_hat, y), number of elements)"""
    for t in 'vm':
        @named(nm + t)
        def _(c, this, p, y, *a, t=t):
            given(c, p, y); p, y = vw(c, p, t), vw(c, y, t)
            if c.branch(differ(p, y)): return RZERO
            return finish(SUM(n_of(p), lambda k: term(p[k], y[k], *a)), i2r(n_of(p)))
mean = lambda s, n: rdiv(s, n)
sq = lambda p, y: power(sub(p, y), 2)
value('mse', sq, lambda s, n: rdiv(s, mul(Q(2), n)))
value('rmse', sq, lambda s, n: sqrt_(rdiv(s, n)))
value('mae', lambda p, y: rabs(sub(p, y)), mean)
value('mbe', sub, mean)
value('log_loss', lambda p, y: neg(add(mul(y, log_(add(p, EPS))), mul(sub(RONE, y), log_(add(sub(RONE, p), EPS))))), mean)
value('cross_entropy', lambda p, y: mul(y, log_(p)), lambda s, n: neg(s))
value('huber_loss', lambda p, y, d: ite(le(rabs(sub(p, y)), d), power(sub(p, y), 2), sub(mul(mul(Q(2), d), rabs(sub(p, y))), mul(d, d))), lambda s, n: s)
value('hinge_loss', lambda p, y: rmax(RZERO, sub(RONE, mul(y, p))), mean)
value('wasserstein_loss', mul, lambda s, n: neg(rdiv(s, n)))
def gradient(nm, f, name=None, check=True):
    """element-wise gradients; mismatched shapes give none"""
    for t in 'vm':
        @named(nm + t)
        def _(c, this, p, y, *a, t=t):
            given(c, p, y); p, y = vw(c, p, t), vw(c, y, t)
            if check and c.branch(differ(p, y)): return NULLO
            return like(c, p if check else y, lambda k: f(p[k] if check else None, y[k], *a))
def hinge_d(p, y): return ite(lt(RZERO, sub(RONE, mul(y, p))), neg(y), RZERO)
gradient('mse_deriv', sub)
gradient('mae_deriv', lambda p, y: ite(lt(p, y), neg(RONE), ite(eq(p, y), RZERO, RONE)))
gradient('log_loss_deriv', lambda p, y: add(neg(rdiv(y, p)), rdiv(sub(RONE, y), sub(RONE, p))))
gradient('cross_entropy_deriv', lambda p, y: neg(rdiv(y, p)))
gradient('huber_loss_deriv', lambda p, y, d: ite(le(rabs(sub(p, y)), d), mul(Q(2), sub(p, y)), ite(lt(y, p), mul(Q(2), d), mul(Q(-2), d))))
gradient('hinge_loss_deriv', hinge_d)
for t in 'vm':
    @named('rmse_deriv' + t)
    def _(c, this, p, y, t=t):
        given(c, p, y); p, y = vw(c, p, t), vw(c, y, t)
        if c.branch(differ(p, y)): return NULLO
        m = rdiv(SUM(n_of(p), lambda k: sq(p[k], y[k])), mul(Q(2), i2r(n_of(p))))
        return like(c, p, lambda k: rdiv(sub(p[k], y[k]), mul(Q(2), sqrt_(m))))
    @named('mbe_deriv' + t)
    def _(c, this, p, y, t=t):
        given(c, p); p = vw(c, p, t)
        return like(c, p, lambda k: RONE)
    @named('wasserstein_loss_deriv' + t)
    def _(c, this, p, y, t=t):
        if c.null(y): return NULLO
        y = vw(c, y, t)
        return like(c, y, lambda k: neg(y[k]))
    @named('hinge_lossw' + t)
    def _(c, this, p, y, w, C, t=t):
        given(c, p, y, w); w = vw(c, w, t)
        h = NAMED['hinge_loss' + t](c, this, p, y)
        return add(mul(C, h), mul(Q(1, 2), SUM(n_of(w), lambda k: mul(w[k], w[k]))))
    @named('hinge_loss_derivw' + t)
    def _(c, this, p, y, C, t=t):
        given(c, p, y); p, y = vw(c, p, t), vw(c, y, t)
        if c.branch(differ(p, y)): return NULLO
        return like(c, p, lambda k: mul(C, hinge_d(p[k], y[k])))
# ---- the dual form of a support vector machine: the Gram matrix of the signed samples
def gram(x, y): return lambda i, j: mul(mul(y[i], y[j]), SUM(x.w, lambda k: mul(x.at(i, k), x.at(j, k))))
@named('dual_form_svm')
def _(c, this, a, X, y):
    given(c, a, X, y); a, X, y = c.view(a), c.view(X), c.view(y)
    c.require(band(eq(a.n, X.h), eq(y.n, X.h)), 'one multiplier and one label per sample')
    c.require(lt(ZERO, a.n), 'samples given')
    g = gram(X, y)
    return sub(mul(Q(1, 2), SUM(a.n, lambda j: mul(SUM(a.n, lambda i: mul(a[i], g(i, j))), a[j]))), SUM(a.n, lambda k: a[k]))
@contract(K + 'dual_form_svm_deriv', props=P)
def _(c, this, a, X, y):
    given(c, a, X, y); a, X, y = c.view(a), c.view(X), c.view(y)
    c.require(band(eq(a.n, X.h), eq(y.n, X.h)), 'one multiplier and one label per sample')
    g = gram(X, y)
    return c.vec(a.n, lambda i: sub(SUM(a.n, lambda j: mul(g(i, j), a[j])), RONE))
# ---- selection by identifier
ORDER = ['mse', 'rmse', 'mae', 'mbe', 'log_loss', 'cross_entropy', 'hinge_loss', 'wasserstein_loss']
def pick(c, cost, suffix, k, none):
    for i, nm in enumerate(ORDER):
        if c.branch(eq(cost, I(i))): return k(nm + suffix)
    return none
for t, form in (('v', 'vector'), ('m', 'matrix')):
    for kind, word, mid, none in (('norm', 'normal', '', RZERO), ('deriv', 'deriv', '_deriv', NULLO)):
        @contract(K + 'run_cost_%s_%s' % (kind, form), props=P)
        def _(c, this, cost, p, y, t=t, mid=mid, none=none):
            return pick(c, cost, mid + t, lambda n: NAMED[n](c, this, p, y), none)
        @contract(K + 'get_cost_function_ptr_%s_%s' % (word, form), props=P)
        def _(c, this, cost, t=t, mid=mid):
            return pick(c, cost, mid + t, lambda n: FnPtr(c.function(K + n)), NULLPTR)
