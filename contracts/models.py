"""Regression and classification models: prediction (C20), one training epoch (C23)"""
from .common import *
from . import reg, cost, stat
from .activation import FORMULAS, softmax
FILES = cost.FILES + ["core/utilities.cpp"] + ["modules/%s/%s.cpp" % (m, m) for m in ('lin_reg', 'log_reg', 'probit_reg', 'tanh_reg', 'c_log_log_reg', 'exp_reg', 'svc', 'softmax_reg', 'uni_lin_reg')]
USES = ["vector", "matrix", "lin_alg", "activation", "reg", "cost", "stat", "prep"]
P, S = 'C20', 'C23'
def atleast1(k): return ite(le(ONE, k), k, ONE)
class Model:
    """the fields of a model object; w: weights, b: bias, X, y: training set"""
    def __init__(m, c, this, bias):
        m.c, m.o, m.bias = c, this, bias
        m.W = c.field(this, '_weights'); given(c, m.W); m.w = c.view(m.W)
        b = c.field(this, bias)
        m.b = b if isinstance(b, T) else None
    def training(m):
        c = m.c
        m.X = c.view(c.field(m.o, '_input_set')); m.y = c.view(c.field(m.o, '_output_set'))
        m.n = m.X.h
        c.require(band(eq(m.w.n, m.X.w), eq(m.y.n, m.X.h), lt(ZERO, m.n)), 'the model fits its training set')
    def f(m, k): return m.c.field(m.o, k)
def affine(w, b, n, at): return add(SUM(n, lambda k: mul(at(k), w[k])), b)
REG = lambda m: (m.f('_lambda'), m.f('_alpha'), m.f('_reg'))
def penal(m, l, a, kind): return reg.penalty(m.c, m.w.n, m.w.__getitem__, l, a, kind)
def linear(cls, link, dlink=None, bias='_bias', flag=None, checked=False, counts=True, loss='mse', z=False, gd='gradient_descent', mle=None, prediction_only=False, fields=None, sgd='sgd', slope=None, mbgd=None):
    """a model predicting link(w.x + b) for a sample x"""
    F = dict(fields=fields or {}, opaque=True)
    def one(m, x): return link(affine(m.w, m.b, m.w.n, lambda k: x[k]))
    def many(m, X, ln): return m.c.vec(X.h, lambda i: ln(affine(m.w, m.b, m.w.n, lambda k: X.at(i, k))))
    def ready(c, this):
        """prediction is refused before the model is set up"""
        if flag: return c.branch(c.field(this, flag))
        if checked: return not c.branch(unset(c, this))
        return True
    def unset(c, this):
        X = c.view(c.field(this, '_input_set')); yh = c.view(c.field(this, '_y_hat')); w = c.view(c.field(this, '_weights'))
        return bor(ne(yh.n, X.h), ne(w.n, X.w))
    def single(c, this, x, ln, guard):
        given(c, x)
        if guard and not ready(c, this): return RZERO
        m = Model(c, this, bias); x = c.view(x); c.require(eq(x.n, m.w.n), 'one weight per feature')
        return ln(affine(m.w, m.b, m.w.n, lambda k: x[k]))
    def whole(c, this, X, ln, guard):
        given(c, X)
        if guard and not ready(c, this): return NULLO
        m = Model(c, this, bias); X = c.view(X); c.require(eq(X.w, m.w.n), 'one weight per feature')
        return many(m, X, ln)
    ident = lambda v: v
    contract(cls + '::evaluatev', props=P, **F)(lambda c, this, x: single(c, this, x, link, False))
    contract(cls + '::evaluatem', props=P, **F)(lambda c, this, X: whole(c, this, X, link, False))
    contract(cls + '::model_test', props=P, **F)(lambda c, this, x: single(c, this, x, link, True))
    contract(cls + '::model_set_test', props=P, **F)(lambda c, this, X: whole(c, this, X, link, True))
    if z:
        contract(cls + '::propagatev', props=P, **F)(lambda c, this, x: single(c, this, x, ident, False))
        contract(cls + '::propagatem', props=P, **F)(lambda c, this, X: whole(c, this, X, ident, False))
    if checked:
        contract(cls + '::needs_init', props=P, **F)(lambda c, this: unset(c, this))
    def forward(c, this):
        m = Model(c, this, bias); m.X = c.view(c.field(this, '_input_set')); c.require(eq(m.X.w, m.w.n), 'one weight per feature')
        if z: c.setfield(this, '_z', many(m, m.X, ident))
        c.setfield(this, '_y_hat', many(m, m.X, link))
    contract(cls + '::forward_pass', props=P, **F)(forward)
    if prediction_only: return
    def costs(c, this, p, y):
        m = Model(c, this, bias)
        v = cost.NAMED[loss + 'v'](c, None, p, y)
        return add(v, penal(m, *REG(m)))
    contract(cls + '::cost', props=S, **F)(costs)
    state = ('_weights', bias); shown = ('_z', '_y_hat') if z else ('_y_hat',)
    def step(derive):
        """every epoch: parameters -/+ rate * gradient of the cost at the current predictions, then regularisation"""
        def train(c, this, rate, epochs, ui):
            c.require(bnot(ui), 'no console output')
            if flag and not c.branch(c.field(this, flag)): return
            if checked and c.branch(unset(c, this)): return
            def epoch(c):
                m = Model(c, this, bias); m.training()
                if counts: c.require(band(eq(m.f('_n'), m.n)), 'sample count recorded')
                at = lambda i: affine(m.w, m.b, m.w.n, lambda k: m.X.at(i, k))
                dl = dlink or (lambda v: RONE)
                g = lambda i: mul(sub(link(at(i)), m.y[i]), dl(at(i)) if derive else RONE)
                r = rdiv(rate, i2r(m.n))
                raw = c.arr(lambda k: sub(m.w[k], mul(r, SUM(m.n, lambda i: mul(m.X.at(i, k), g(i))))))
                c.set(m.W, (m.w.n,), raw)           # the weights object is updated in place, then replaced by the regularised one
                l, a, kind = REG(m)
                c.setfield(this, '_weights', c.vec(m.w.n, reg.regularised(c, lambda k: sel(raw, k), l, a, kind)))
                c.setfield(this, bias, sub(m.b, mul(r, SUM(m.n, g))))
                forward(c, this)
            c.iterate(atleast1(epochs), state, epoch, shown, lambda c: forward(c, this))
        return train
    contract(cls + '::' + gd, props=S, **F)(step(dlink is not None))
    if mle: contract(cls + '::' + mle, props=S, **F)(step(dlink is not None))
    if mbgd: batches(cls, mbgd[0], bias, forward, link, F, flag=flag, unset=unset if checked else None, counts=counts, divisor=mbgd[1], slope=dlink, refresh='refresh' in mbgd, shown=shown)
    stochastic(cls, sgd, bias, forward, link, slope or (lambda z, p: RONE), F, flag=flag, unset=unset if checked else None, counts=counts)
def stochastic(cls, name, bias, forward, link, slope, F, flag=None, unset=None, counts=True, start=False, reg_of=None, error=None):
    """every epoch draws one sample and steps along the gradient of that sample's cost; predictions are refreshed at the end"""
    @contract(cls + '::' + name, props=S, random=True, **F)
    def _(c, this, rate, epochs, ui):
        c.require(bnot(ui), 'no console output')
        if flag and not c.branch(c.field(this, flag)): return
        if unset and c.branch(unset(c, this)): return
        if counts: c.require(eq(c.field(this, '_n'), c.view(c.field(this, '_input_set')).h), 'sample count recorded')
        if start: forward(c, this)
        def epoch(c):
            m = Model(c, this, bias); m.training()
            s = c.draw('uniform_int', ZERO, sub(m.n, ONE))
            z = affine(m.w, m.b, m.w.n, lambda k: m.X.at(s, k)); p = link(z) if link else z
            e = mul(rate, error(m, z, m.y[s]) if error else mul(sub(p, m.y[s]), slope(z, p)))
            raw = c.arr(lambda k: sub(m.w[k], mul(e, m.X.at(s, k))))
            c.set(m.W, (m.w.n,), raw)
            l, a, kind = reg_of(m, rate) if reg_of else REG(m)
            c.setfield(this, '_weights', c.vec(m.w.n, reg.regularised(c, lambda k: sel(raw, k), l, a, kind)))
            c.setfield(this, bias, sub(m.b, e))
        c.iterate(atleast1(epochs), ('_weights', bias, '$rng'), epoch)
        forward(c, this)
def batched(c, this, size, counts, cls='Model', outputs=None):
    """sample count, number of batches, batch size of a training set split into mini-batches"""
    X = c.view(c.field(this, '_input_set')); n = X.h
    c.require(band(lt(ZERO, size), le(size, n)), 'at least one batch')
    if counts: c.require(eq(c.field(this, '_n'), n), 'sample count recorded')
    nb = c.quotient(n, size)
    return X, n, nb, c.quotient(n, nb)
def batches(cls, name, bias, forward, link, F, flag=None, unset=None, counts=True, divisor='batch', slope=None, refresh=False, shown=(), start=False, reg_of=None, error=None):
    """every epoch goes through the mini-batches in order, one step along the gradient of the batch's mean cost for each"""
    @contract(cls + '::' + name, props=S, **F)
    def _(c, this, rate, epochs, size, ui):
        c.require(bnot(ui), 'no console output')
        if flag and not c.branch(c.field(this, flag)): return
        if unset and c.branch(unset(c, this)): return
        X, n, nb, m = batched(c, this, size, counts); y = c.view(c.field(this, '_output_set'))
        c.require(band(eq(y.n, n), eq(c.view(c.field(this, '_weights')).n, X.w)), 'the model fits its training set')
        if start: forward(c, this)
        def batch(c):
            o = Model(c, this, bias); t = c.it; x = lambda i, k: X.at(add(mul(m, t), i), k); yt = lambda i: y[add(mul(m, t), i)]
            at = lambda i: affine(o.w, o.b, o.w.n, lambda k: x(i, k))
            g = lambda i: error(o, at(i), yt(i)) if error else mul(sub(link(at(i)), yt(i)), slope(at(i)) if slope else RONE)
            r = rdiv(rate, i2r({'batch': m, 'batches': nb, 'all': n}[divisor]))
            raw = c.arr(lambda k: sub(o.w[k], mul(r, SUM(m, lambda i: mul(x(i, k), g(i))))))
            c.set(o.W, (o.w.n,), raw)
            l, a, kind = reg_of(o, r) if reg_of else REG(o)
            c.setfield(this, '_weights', c.vec(o.w.n, reg.regularised(c, lambda k: sel(raw, k), l, a, kind)))
            c.setfield(this, bias, sub(o.b, mul(r, SUM(m, g))))
            if refresh: forward(c, this)
        more = (shown, lambda c: forward(c, this)) if refresh else ()
        c.iterate(atleast1(epochs), ('_weights', bias), lambda c: c.iterate(nb, ('_weights', bias), batch, *more), *more)
        forward(c, this)
def act(name, kind): return lambda z, *p: uf('$act_%s_%s' % (name, kind), 'R', z, *p)
N = lambda nm: (act(nm, 'norm'), act(nm, 'deriv'))
from .activation import PI
sqrt_, exp_ = f1('sqrt'), f1('exp')
def pdf(z, p): return mul(rdiv(RONE, sqrt_(mul(Q(2), PI))), exp_(rdiv(neg(mul(z, z)), Q(2))))
linear('MLPPLinReg', lambda v: v, flag='_initialized', mbgd=('mbgd', 'batch'))
linear('MLPPLogReg', N('sigmoid')[0], flag='_initialized', loss='log_loss', mle='mle', mbgd=('mbgd', 'batch'))
linear('MLPPProbitReg', *N('gaussian_cdf'), checked=True, counts=False, z=True, gd='train_gradient_descent', mle='train_mle', sgd='train_sgd', slope=pdf, mbgd=('train_mbgd', 'batches'))
linear('MLPPTanhReg', *N('tanh'), checked=True, counts=False, z=True, gd='train_gradient_descent', sgd='train_sgd', slope=lambda z, p: sub(RONE, mul(p, p)), mbgd=('train_mbgd', 'all', 'refresh'))
linear('MLPPCLogLogReg', *N('cloglog'), bias='bias', z=True, mle='mle', slope=lambda z, p: exp_(sub(z, exp_(z))), mbgd=('mbgd', 'all', 'refresh'))
linear('MLPPSVC', N('sign')[0], checked=True, z=True, prediction_only=True)

# ---- support vector classifier: hinge loss of the affine value, ridge penalty
@contract('MLPPSVC::cost', props=S, opaque=True)
def _(c, this, z, y, w, C): return cost.NAMED['hinge_losswv'](c, None, z, y, w, C)
def svc_forward(c, this):
    m = Model(c, this, '_bias'); m.X = c.view(c.field(this, '_input_set')); c.require(eq(m.X.w, m.w.n), 'one weight per feature')
    at = lambda i: affine(m.w, m.b, m.w.n, lambda k: m.X.at(i, k))
    c.setfield(this, '_z', c.vec(m.X.h, at)); c.setfield(this, '_y_hat', c.vec(m.X.h, lambda i: N('sign')[0](at(i))))
@contract('MLPPSVC::train_gradient_descent', props=S, opaque=True)
def _(c, this, rate, epochs, ui):
    c.require(bnot(ui), 'no console output')
    if c.branch(_svc_unset(c, this)): return
    def epoch(c):
        m = Model(c, this, '_bias'); m.training()
        C = m.f('_c'); r = rdiv(rate, i2r(m.n))
        g = lambda i: mul(C, cost.hinge_d(affine(m.w, m.b, m.w.n, lambda k: m.X.at(i, k)), m.y[i]))
        raw = c.arr(lambda k: sub(m.w[k], mul(r, SUM(m.n, lambda i: mul(m.X.at(i, k), g(i))))))
        c.set(m.W, (m.w.n,), raw)
        c.setfield(this, '_weights', c.vec(m.w.n, reg.regularised(c, lambda k: sel(raw, k), r, RZERO, reg.RIDGE)))
        c.setfield(this, '_bias', sub(m.b, mul(r, SUM(m.n, g))))
        svc_forward(c, this)
    c.iterate(atleast1(epochs), ('_weights', '_bias'), epoch, ('_z', '_y_hat'), lambda c: svc_forward(c, this))
def _svc_unset(c, this):
    X = c.view(c.field(this, '_input_set')); yh = c.view(c.field(this, '_y_hat')); w = c.view(c.field(this, '_weights'))
    return bor(ne(yh.n, X.h), ne(w.n, X.w))
stochastic('MLPPSVC', 'train_sgd', '_bias', svc_forward, None, None, dict(opaque=True), unset=_svc_unset, counts=False, start=True,
           reg_of=lambda m, rate: (rate, RZERO, reg.RIDGE), error=lambda m, z, y: mul(m.f('_c'), cost.hinge_d(z, y)))
batches('MLPPSVC', 'train_mbgd', '_bias', svc_forward, None, dict(opaque=True), unset=_svc_unset, counts=False, divisor='all', refresh=True, shown=('_z', '_y_hat'), start=True,
        reg_of=lambda m, r: (r, RZERO, reg.RIDGE), error=lambda m, z, y: mul(m.f('_c'), cost.hinge_d(z, y)))

# ---- univariate regression: b0 + b1 x, the coefficients are the least-squares estimates
UNI = 'MLPPUniLinReg::'
@contract(UNI + 'model_test', props=P)
def _(c, this, x): return add(c.field(this, '_b0'), mul(c.field(this, '_b1'), x))
@contract(UNI + 'model_set_test', props=P)
def _(c, this, x):
    given(c, x); x = c.view(x)
    return c.vec(x.n, lambda k: add(c.field(this, '_b0'), mul(c.field(this, '_b1'), x[k])))
@contract(UNI + 'train', props=S, opaque=True)
def _(c, this):
    X, y = c.field(this, '_input_set'), c.field(this, '_output_set')
    if c.null(X) or c.null(y): return
    x, y = c.view(X), c.view(y); c.require(band(eq(x.n, y.n), lt(ZERO, x.n)), 'one target per sample')
    b1 = stat.b1(x, y)
    c.setfield(this, '_b1', b1); c.setfield(this, '_b0', sub(stat.mean(y), mul(b1, stat.mean(x))))

# ---- exponential regression: bias + sum_k initial_k * weight_k ^ x_k
class Exp(Model):
    def __init__(m, c, this):
        Model.__init__(m, c, this, '_bias'); m.I = c.field(this, '_initial'); given(c, m.I); m.a = c.view(m.I)
    def at(m, x):
        return add(SUM(m.w.n, lambda k: mul(m.a[k], power_(m.w[k], x(k)))), m.b)
    def fits(m, n): m.c.require(band(eq(n, m.w.n), eq(m.a.n, m.w.n)), 'one weight and factor per feature')
EXP = 'MLPPExpReg::'
def exp_one(c, this, x): given(c, x); m = Exp(c, this); x = c.view(x); m.fits(x.n); return m.at(x.__getitem__)
def exp_many(c, this, X): given(c, X); m = Exp(c, this); X = c.view(X); m.fits(X.w); return c.vec(X.h, lambda i: m.at(lambda k: X.at(i, k)))
for nm in ('evaluatev', 'model_test'): contract(EXP + nm, props=P, opaque=True)(exp_one)
for nm in ('evaluatem', 'model_set_test'): contract(EXP + nm, props=P, opaque=True)(exp_many)
def exp_forward(c, this): c.setfield(this, '_y_hat', exp_many(c, this, c.field(this, '_input_set')))
contract(EXP + 'forward_pass', props=P, opaque=True)(exp_forward)
@contract(EXP + 'cost', props=S, opaque=True)
def _(c, this, p, y):
    m = Model(c, this, '_bias'); v = cost.NAMED['msev'](c, None, p, y)
    return add(v, penal(m, *REG(m)))
def exp_counts(c, this, m):
    m.training(); m.fits(m.X.w)
    c.require(band(eq(m.f('_n'), m.n), eq(m.f('_k'), m.X.w)), 'sample and feature counts recorded')
def exp_update(c, this, m, gw, ga, gb):
    raw = c.arr(lambda k: sub(m.w[k], gw(k)))
    c.set(m.W, (m.w.n,), raw); c.set(m.I, (m.w.n,), lambda k: sub(m.a[k], ga(k)))
    l, a, kind = REG(m)
    c.setfield(this, '_weights', c.vec(m.w.n, reg.regularised(c, lambda k: sel(raw, k), l, a, kind)))
    c.setfield(this, '_bias', sub(m.b, gb))
@contract(EXP + 'gradient_descent', props=S, opaque=True)
def _(c, this, rate, epochs, ui):
    c.require(bnot(ui), 'no console output')
    def epoch(c):
        m = Exp(c, this); exp_counts(c, this, m)
        e = lambda i: sub(m.at(lambda k: m.X.at(i, k)), m.y[i]); r = rdiv(rate, i2r(m.n))
        exp_update(c, this, m,
            lambda k: mul(r, SUM(m.n, lambda i: mul(mul(e(i), m.a[k]), mul(m.X.at(i, k), power_(m.w[k], sub(m.X.at(i, k), RONE)))))),
            lambda k: mul(r, SUM(m.n, lambda i: mul(e(i), power_(m.w[k], m.X.at(i, k))))),
            mul(r, SUM(m.n, e)))
        exp_forward(c, this)
    c.iterate(atleast1(epochs), ('_weights', '_initial', '_bias'), epoch, ('_y_hat',), lambda c: exp_forward(c, this))
@contract(EXP + 'sgd', props=S, opaque=True, random=True)
def _(c, this, rate, epochs, ui):
    c.require(bnot(ui), 'no console output')
    def epoch(c):
        m = Exp(c, this); exp_counts(c, this, m)
        s = c.draw('uniform_int', ZERO, sub(m.n, ONE))
        e = mul(rate, sub(m.at(lambda k: m.X.at(s, k)), m.y[s]))
        exp_update(c, this, m,
            lambda k: mul(mul(e, m.a[k]), mul(m.X.at(s, k), power_(m.w[k], sub(m.X.at(s, k), RONE)))),
            lambda k: mul(e, power_(m.w[k], m.X.at(s, k))), e)
    c.iterate(atleast1(epochs), ('_weights', '_initial', '_bias', '$rng'), epoch)
    exp_forward(c, this)
@contract(EXP + 'mbgd', props=S, opaque=True)
def _(c, this, rate, epochs, size, ui):
    c.require(bnot(ui), 'no console output')
    X, n, nb, m = batched(c, this, size, True); y = c.view(c.field(this, '_output_set'))
    c.require(eq(y.n, n), 'one target per sample')
    def batch(c):
        o = Exp(c, this); exp_counts(c, this, o); t = c.it; x = lambda i, k: X.at(add(mul(m, t), i), k)
        e = lambda i: sub(o.at(lambda k: x(i, k)), y[add(mul(m, t), i)]); r = rdiv(rate, i2r(m))
        exp_update(c, this, o,
            lambda k: mul(r, SUM(m, lambda i: mul(mul(e(i), o.a[k]), mul(x(i, k), power_(o.w[k], sub(x(i, k), RONE)))))),
            lambda k: mul(r, SUM(m, lambda i: mul(e(i), power_(o.w[k], x(i, k))))), RZERO)      # the bias is left alone
    f = ('_weights', '_initial')
    c.iterate(atleast1(epochs), f, lambda c: c.iterate(nb, f, batch))
    exp_forward(c, this)

# ---- softmax regression: softmax(bias + W^T x); weights (features x classes)
SOFT = 'MLPPSoftmaxReg::'
class Soft:
    def __init__(m, c, this):
        m.c, m.o = c, this
        m.W, m.B = c.field(this, '_weights'), c.field(this, '_bias'); given(c, m.W, m.B)
        m.w, m.b = c.view(m.W), c.view(m.B)
    def f(m, k): return m.c.field(m.o, k)
    def lin(m, x): return lambda j: add(SUM(m.w.h, lambda k: mul(x(k), m.w.at(k, j))), m.b[j])
    def prob(m, x): return softmax(m.w.w, m.lin(x))
    def fits(m, n): m.c.require(band(eq(n, m.w.h), eq(m.b.n, m.w.w)), 'weights fit')
    def sets(m):
        m.X, m.Y = m.c.view(m.f('_input_set')), m.c.view(m.f('_output_set'))
        m.n = m.X.h
        m.c.require(band(eq(m.w.h, m.X.w), eq(m.w.w, m.Y.w), eq(m.b.n, m.Y.w), eq(m.Y.h, m.n), lt(ZERO, m.n)), 'the model fits its training set')
def soft_unset(c, this):
    X, Y, yh, w, b = (c.view(c.field(this, k)) for k in ('_input_set', '_output_set', '_y_hat', '_weights', '_bias'))
    return bor(bor(ne(yh.h, X.h), ne(b.n, Y.w)), bor(ne(w.w, Y.w), ne(w.h, X.w)))
contract(SOFT + 'needs_init', props=P, opaque=True)(lambda c, this: soft_unset(c, this))
def soft_one(c, this, x): given(c, x); m = Soft(c, this); x = c.view(x); m.fits(x.n); return c.vec(m.w.w, m.prob(x.__getitem__))
def soft_many(c, this, X): given(c, X); m = Soft(c, this); X = c.view(X); m.fits(X.w); return c.mat(X.h, m.w.w, lambda i, j: m.prob(lambda k: X.at(i, k))(j))
contract(SOFT + 'evaluatev', props=P, opaque=True)(soft_one)
contract(SOFT + 'evaluatem', props=P, opaque=True)(soft_many)
@contract(SOFT + 'model_test', props=P, opaque=True)
def _(c, this, x): return NULLO if c.branch(soft_unset(c, this)) else soft_one(c, this, x)
@contract(SOFT + 'model_set_test', props=P, opaque=True)
def _(c, this, x): return NULLO if c.branch(soft_unset(c, this)) else soft_many(c, this, x)
def soft_forward(c, this): c.setfield(this, '_y_hat', soft_many(c, this, c.field(this, '_input_set')))
contract(SOFT + 'forward_pass', props=P, opaque=True)(soft_forward)
@contract(SOFT + 'cost', props=S, opaque=True)
def _(c, this, p, y):
    m = Soft(c, this); v = cost.NAMED['cross_entropym'](c, None, p, y)
    return add(v, reg.penalty(c, m.w.len, m.w.__getitem__, m.f('_lambda'), m.f('_alpha'), m.f('_reg')))
def soft_update(c, this, m, gw, gb):
    raw = c.arr2(m.w.w, lambda k, j: sub(m.w.at(k, j), gw(k, j)))
    c.set(m.W, (m.w.w, m.w.h), raw)
    c.setfield(this, '_weights', c.mat(m.w.h, m.w.w, c.arr(reg.regularised(c, lambda k: sel(raw, k), m.f('_lambda'), m.f('_alpha'), m.f('_reg')))))
    c.set(m.B, (m.b.n,), lambda j: sub(m.b[j], gb(j)))
@contract(SOFT + 'train_gradient_descent', props=S, opaque=True)
def _(c, this, rate, epochs, ui):
    c.require(bnot(ui), 'no console output')
    if c.branch(soft_unset(c, this)): return
    def epoch(c):
        m = Soft(c, this); m.sets()
        e = lambda i, j: sub(m.prob(lambda k: m.X.at(i, k))(j), m.Y.at(i, j))
        soft_update(c, this, m, lambda k, j: mul(rate, SUM(m.n, lambda i: mul(m.X.at(i, k), e(i, j)))), lambda j: SUM(m.n, lambda i: mul(rate, e(i, j))))
        soft_forward(c, this)
    c.iterate(atleast1(epochs), ('_weights', '_bias'), epoch, ('_y_hat',), lambda c: soft_forward(c, this))
@contract(SOFT + 'train_sgd', props=S, opaque=True, random=True)
def _(c, this, rate, epochs, ui):
    c.require(bnot(ui), 'no console output')
    if c.branch(soft_unset(c, this)): return
    def epoch(c):
        m = Soft(c, this); m.sets()
        s = c.draw('uniform_int', ZERO, sub(m.n, ONE))
        p = m.prob(lambda k: m.X.at(s, k)); e = lambda j: mul(rate, sub(p(j), m.Y.at(s, j)))
        soft_update(c, this, m, lambda k, j: mul(m.X.at(s, k), e(j)), e)
    c.iterate(atleast1(epochs), ('_weights', '_bias', '$rng'), epoch)
    soft_forward(c, this)
@contract(SOFT + 'train_mbgd', props=S, opaque=True)
def _(c, this, rate, epochs, size, ui):
    c.require(bnot(ui), 'no console output')
    if c.branch(soft_unset(c, this)): return
    X, n, nb, m = batched(c, this, size, False); Y = c.view(c.field(this, '_output_set'))
    def batch(c):
        o = Soft(c, this); o.sets(); t = c.it; x = lambda i, k: X.at(add(mul(m, t), i), k)
        e = lambda i, j: sub(o.prob(lambda k: x(i, k))(j), Y.at(add(mul(m, t), i), j))
        soft_update(c, this, o, lambda k, j: mul(rate, SUM(m, lambda i: mul(x(i, k), e(i, j)))), lambda j: SUM(m, lambda i: mul(rate, e(i, j))))
    f = ('_weights', '_bias')
    c.iterate(atleast1(epochs), f, lambda c: c.iterate(nb, f, batch))
    soft_forward(c, this)
