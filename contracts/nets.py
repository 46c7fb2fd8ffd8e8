"""Networks and layers: prediction equals the composed layers, one sample or many (C20); one training epoch (C23)"""
from .common import *
from . import reg, cost, activation
from .activation import adj, NAMED, ORDER
from .models import given, act, atleast1
FILES = cost.FILES + ["core/utilities.cpp"] + ["modules/%s/%s.cpp" % (m, m) for m in ('mlp', 'probit_reg', 'tanh_reg', 'svc', 'softmax_reg', 'log_reg', 'lin_reg', 'c_log_log_reg', 'exp_reg', 'softmax_net', 'auto_encoder', 'hidden_layer', 'output_layer', 'multi_output_layer', 'dual_svc', 'ann')]
USES = ["vector", "matrix", "lin_alg", "activation", "reg", "cost", "stat", "prep"]
P, S = 'C20', 'C23'
sig, dsig = act('sigmoid', 'norm'), act('sigmoid', 'deriv')
class Layer:
    """affine map: weights (inputs x outputs), bias per output"""
    def __init__(m, c, this, w, b):
        m.c = c; m.W, m.B = c.field(this, w), c.field(this, b); given(c, m.W, m.B)
        m.w, m.b = c.view(m.W), c.view(m.B)
        m.inputs, m.outputs = m.w.h, m.w.w
        c.require(eq(m.b.n, m.w.w), 'one bias per output')
    def fits(m, n): m.c.require(eq(n, m.inputs), 'one weight per input')
    def lin(m, x): return lambda j: add(SUM(m.inputs, lambda k: mul(x(k), m.w.at(k, j))), m.b[j])
class Unit:
    """affine value: one weight per input, a bias"""
    def __init__(m, c, this, w, b):
        m.c = c; m.W = c.field(this, w); given(c, m.W); m.w = c.view(m.W); m.b = c.field(this, b)
        m.inputs = m.w.n; m.outputs = None
    def fits(m, n): m.c.require(eq(n, m.inputs), 'one weight per input')
    def lin(m, x): return add(SUM(m.inputs, lambda k: mul(x(k), m.w[k])), m.b)
F = dict(opaque=True)
def net(cls, last, out, flag=None, unset=None, struct=True, inplace=False, guard=()):
    """hidden sigmoid layer, then a layer or unit, then `out`"""
    def load(c, this):
        l1 = Layer(c, this, '_weights1', '_bias1'); l2 = last(c, this, '_weights2', '_bias2')
        l2.fits(l1.outputs); return l1, l2
    def top(l2, a): return out(l2.outputs, l2.lin(a)) if l2.outputs is not None else out(l2.lin(a))
    def hid(l1, x): return lambda j: sig(l1.lin(x)(j))
    def one(c, this, x):
        given(c, x); l1, l2 = load(c, this); x = c.view(x); l1.fits(x.n)
        y = top(l2, hid(l1, x.__getitem__))
        return c.vec(l2.outputs, y) if l2.outputs is not None else y
    def many(c, this, X):
        given(c, X); l1, l2 = load(c, this); X = c.view(X); l1.fits(X.w)
        row = lambda i: top(l2, hid(l1, lambda k: X.at(i, k)))
        return c.mat(X.h, l2.outputs, lambda i, j: row(i)(j)) if l2.outputs is not None else c.vec(X.h, row)
    contract(cls + '::evaluatev', props=P, **F)(one)
    contract(cls + '::evaluatem', props=P, **F)(many)
    def ready(c, this):
        if flag: return c.branch(c.field(this, flag))
        if unset: return not c.branch(unset(c, this))
        return True
    @contract(cls + '::model_test', props=P, **F)
    def _(c, this, x):
        if not ready(c, this): return NULLO
        return one(c, this, x)
    @contract(cls + '::model_set_test', props=P, **F)
    def _(c, this, X):
        if not ready(c, this): return NULLO
        return many(c, this, X)
    if unset: contract(cls + '::needs_init', props=P, **F)(lambda c, this: unset(c, this))
    def inner(c, l1, X):
        z = lambda i, j: l1.lin(lambda k: X.at(i, k))(j)
        return z, lambda i, j: sig(z(i, j))
    if struct:
        for nm, res in (('propagatev', 'PropagateVResult'), ('propagatem', 'PropagateMResult')):
            @contract(cls + '::' + nm, props=P, **F)
            def _(c, this, x, nm=nm, res=res):
                given(c, x); l1 = Layer(c, this, '_weights1', '_bias1'); x = c.view(x)
                if nm == 'propagatev':
                    l1.fits(x.n); return c.struct(cls + '::' + res, z2=c.vec(l1.outputs, l1.lin(x.__getitem__)), a2=c.vec(l1.outputs, hid(l1, x.__getitem__)))
                l1.fits(x.w); z, a = inner(c, l1, x)
                return c.struct(cls + '::' + res, z2=c.mat(x.h, l1.outputs, z), a2=c.mat(x.h, l1.outputs, a))
    else:
        @contract(cls + '::propagatev', props=P, **F)
        def _(c, this, x, zo, ao):
            given(c, x, zo, ao); c.require(FALSE if c.same(zo, ao) else TRUE, 'separate outputs')
            l1 = Layer(c, this, '_weights1', '_bias1'); x = c.view(x); l1.fits(x.n)
            c.set(zo, (l1.outputs,), c.arr(l1.lin(x.__getitem__))); c.set(ao, (l1.outputs,), c.arr(hid(l1, x.__getitem__)))
        @contract(cls + '::propagatem', props=P, **F)
        def _(c, this, x, zo, ao):
            given(c, x, zo, ao); c.require(FALSE if c.same(zo, ao) else TRUE, 'separate outputs')
            l1 = Layer(c, this, '_weights1', '_bias1'); x = c.view(x); l1.fits(x.w); z, a = inner(c, l1, x)
            c.set(zo, (l1.outputs, x.h), c.arr2(l1.outputs, z)); c.set(ao, (l1.outputs, x.h), c.arr2(l1.outputs, a))
    def forward(c, this):
        l1, l2 = load(c, this); X = c.view(c.field(this, '_input_set')); l1.fits(X.w)
        z, a = inner(c, l1, X)
        y = many(c, this, c.field(this, '_input_set'))
        if inplace:
            zo, ao, yo = (c.field(this, k) for k in ('_z2', '_a2', '_y_hat'))
            given(c, zo, ao, yo)
            c.set(zo, (l1.outputs, X.h), c.arr2(l1.outputs, z)); c.set(ao, (l1.outputs, X.h), c.arr2(l1.outputs, a)); c.set(yo, (X.h,), c.view(y).arr)
        else:
            c.setfield(this, '_z2', c.mat(X.h, l1.outputs, z)); c.setfield(this, '_a2', c.mat(X.h, l1.outputs, a)); c.setfield(this, '_y_hat', y)
    contract(cls + '::forward_pass', props=P, **F)(forward)
    return forward
def soft_unset(c, this):
    X, Y, yh, w1, w2, b1, b2 = (c.field(this, k) for k in ('_input_set', '_output_set', '_y_hat', '_weights1', '_weights2', '_bias1', '_bias2'))
    if c.null(X) or c.null(Y): return TRUE
    X, Y, yh, w1, w2, b1, b2 = map(c.view, (X, Y, yh, w1, w2, b1, b2)); h = c.field(this, '_n_hidden')
    return bor(ne(yh.h, X.h), ne(w1.w, h), ne(w1.h, X.w), ne(w2.w, Y.w), ne(w2.h, h), ne(b1.n, h), ne(b2.n, Y.w))
net('MLPPMLP', Unit, sig, struct=False, inplace=True)
net('MLPPSoftmaxNet', Layer, lambda n, at: adj(n, at), unset=soft_unset)
net('MLPPAutoEncoder', Layer, lambda n, at: at, flag='_initialized')

# ---- single layers: z = input * weights + bias, a = activation(z); set up from the random stream on first use
from . import prep
def chosen(c, kind, form, z, this):
    r = activation.pick(c, c.field(this, '_activation'), kind, form, lambda n: NAMED[n](c, None, z), RZERO if form == 'real' else NULLO)
    return r
HID, OUT, MUL = 'MLPPHiddenLayer::', 'MLPPOutputLayer::', 'MLPPMultiOutputLayer::'
L = dict(opaque=True, budget=300)
def ready(c, this): c.require(c.field(this, '_initialized'), 'the layer is set up')
def cells(c, l, X): return c.mat(X.h, l.outputs, lambda i, j: l.lin(lambda k: X.at(i, k))(j))
@contract(HID + 'forward_pass', props=P, **L)
def _(c, this):
    ready(c, this); l = Layer(c, this, '_weights', '_bias'); X = c.field(this, '_input'); z = c.field(this, '_z'); given(c, X, z); X = c.view(X); l.fits(X.w)
    c.set(z, (l.outputs, X.h), c.arr2(l.outputs, lambda i, j: l.lin(lambda k: X.at(i, k))(j)))
    c.setfield(this, '_a', chosen(c, 'norm', 'matrix', z, this))
@contract(HID + 'test', props=P, **L)
def _(c, this, x):
    given(c, x); ready(c, this); l = Layer(c, this, '_weights', '_bias'); x = c.view(x); l.fits(x.n)
    z = c.vec(l.outputs, l.lin(x.__getitem__)); c.setfield(this, '_z_test', z)
    c.setfield(this, '_a_test', chosen(c, 'norm', 'vector', z, this))
@contract(OUT + 'forward_pass', props=P, **L)
def _(c, this):
    ready(c, this); l = Unit(c, this, '_weights', '_bias'); X = c.field(this, '_input'); given(c, X); X = c.view(X); l.fits(X.w)
    z = c.vec(X.h, lambda i: l.lin(lambda k: X.at(i, k))); c.setfield(this, '_z', z)
    c.setfield(this, '_a', chosen(c, 'norm', 'vector', z, this))
@contract(OUT + 'test', props=P, **L)
def _(c, this, x):
    given(c, x); ready(c, this); l = Unit(c, this, '_weights', '_bias'); x = c.view(x); l.fits(x.n)
    z = l.lin(x.__getitem__); c.setfield(this, '_z_test', z)
    c.setfield(this, '_a_test', chosen(c, 'norm', 'real', z, this))
@contract(MUL + 'forward_pass', props=P, **L)
def _(c, this):
    l = Layer(c, this, '_weights', '_bias'); X = c.field(this, '_input'); given(c, X); X = c.view(X); l.fits(X.w)
    z = cells(c, l, X); c.setfield(this, '_z', z)
    c.setfield(this, '_a', chosen(c, 'norm', 'matrix', z, this))
@contract(MUL + 'test', props=P, **L)
def _(c, this, x):
    given(c, x); l = Layer(c, this, '_weights', '_bias'); x = c.view(x); l.fits(x.n)
    z = c.vec(l.outputs, l.lin(x.__getitem__)); c.setfield(this, '_z_test', z)
    c.setfield(this, '_a_test', chosen(c, 'norm', 'vector', z, this))
R = 'C25'
# ---- set-up: every parameter object takes its shape and is filled from the random stream, in the order weights then biases
class Shape:
    def __init__(x, shape, ln): x.shape, x.len = shape, ln
KINDS = lambda c, k: c.require(band(le(ZERO, k), le(k, I(7))), 'a kind of distribution')
def grow(c, o, shape):
    """resized; cells that are new hold anything"""
    x = c.view(o); rest = c.any_arr(); c.set(o, shape, lambda k: ite(lt(k, x.len), x[k], sel(rest, k)))
def fill_m(c, o, h, w, kind=ZERO): prep.weights(c, o, Shape((w, h), mul(w, h)), w, h, kind)
def fill_v(c, o, n, kind=ZERO): prep.weights(c, o, Shape((n,), n), n, None, kind)
def fill_b(c, o, n): prep.draws(c, o, (n,), n, 'uniform_real', RZERO, RONE)
def draw_b(c): return c.draw('uniform_real', RZERO, RONE)
Z = dict(random=True, opaque=True)
@contract(HID + 'initialize', props=R, **Z)
def _(c, this):
    if c.branch(c.field(this, '_initialized')): return
    w, b, X, kind = (c.field(this, k) for k in ('_weights', '_bias', '_input', '_weight_init')); given(c, w, b, X); n = c.field(this, '_n_hidden')
    KINDS(c, kind); c.require(le(ZERO, n), 'width'); X = c.view(X)
    fill_m(c, w, X.w, n, kind); fill_b(c, b, n); c.setfield(this, '_initialized', TRUE)
@contract(OUT + 'initialize', props=R, **Z)
def _(c, this):
    if c.branch(c.field(this, '_initialized')): return
    w, kind = (c.field(this, k) for k in ('_weights', '_weight_init')); given(c, w); n = c.field(this, '_n_hidden')
    KINDS(c, kind); c.require(le(ZERO, n), 'width')
    fill_v(c, w, n, kind); c.setfield(this, '_bias', draw_b(c)); c.setfield(this, '_initialized', TRUE)
def sets(c, this):
    X, Y = c.field(this, '_input_set'), c.field(this, '_output_set')
    if c.null(X) or c.null(Y): return None
    return c.view(X), c.view(Y)
for cls in ('MLPPProbitReg', 'MLPPTanhReg', 'MLPPSVC'):
    @contract(cls + '::initialize', props=R, **Z)
    def _(c, this):
        s = sets(c, this)
        if not s: return
        X, Y = s; yh, w = c.field(this, '_y_hat'), c.field(this, '_weights'); given(c, yh, w)
        c.require(FALSE if c.same(yh, w) else TRUE, 'separate parameters')
        grow(c, yh, (X.h,)); fill_v(c, w, X.w); c.setfield(this, '_bias', draw_b(c))
@contract('MLPPSoftmaxReg::initialize', props=R, **Z)
def _(c, this):
    s = sets(c, this)
    if not s: return
    X, Y = s; yh, w, b = c.field(this, '_y_hat'), c.field(this, '_weights'), c.field(this, '_bias'); given(c, yh, w, b)
    grow(c, yh, (ZERO, X.h)); fill_m(c, w, X.w, Y.w); fill_b(c, b, Y.w)
@contract('MLPPSoftmaxNet::initialize', props=R, **Z)
def _(c, this):
    s = sets(c, this)
    if not s: return
    X, Y = s; yh, w1, w2, b1, b2 = (c.field(this, k) for k in ('_y_hat', '_weights1', '_weights2', '_bias1', '_bias2')); given(c, yh, w1, w2, b1, b2)
    h = c.field(this, '_n_hidden'); c.require(le(ZERO, h), 'width')
    grow(c, yh, (ZERO, X.h)); fill_m(c, w1, X.w, h); fill_m(c, w2, h, Y.w); fill_b(c, b1, h); fill_b(c, b2, Y.w)
@contract('MLPPMLP::initialize', props=R, **Z)
def _(c, this):
    if c.branch(c.field(this, '_initialized')): return
    s = sets(c, this); h = c.field(this, '_n_hidden')
    if not s or c.branch(eq(h, ZERO)): return
    c.require(le(ZERO, h), 'width')
    X, Y = s; yh, w1, w2, b1 = (c.field(this, k) for k in ('_y_hat', '_weights1', '_weights2', '_bias1')); given(c, yh, w1, w2, b1)
    c.setfield(this, '_n', X.h); c.setfield(this, '_k', X.w)
    grow(c, yh, (X.h,)); fill_m(c, w1, X.w, h); fill_v(c, w2, h); fill_b(c, b1, h); c.setfield(this, '_bias2', draw_b(c))
    c.setfield(this, '_z2', c.mat(0, 0, lambda i, j: RZERO)); c.setfield(this, '_a2', c.mat(0, 0, lambda i, j: RZERO))
    c.setfield(this, '_initialized', TRUE)

# ---- dual support vector classifier: sign(sum_j alpha_j y_j <x_j, x> + bias)
DS = 'MLPPDualSVC::'
class Dual:
    def __init__(m, c, this):
        m.c = c; m.A, X, Y = c.field(this, '_alpha'), c.field(this, '_input_set'), c.field(this, '_output_set'); given(c, m.A, X, Y)
        m.a, m.X, m.y = c.view(m.A), c.view(X), c.view(Y); m.b = c.field(this, '_bias')
        c.require(band(eq(m.a.n, m.X.h), eq(m.y.n, m.X.h)), 'one multiplier and label per sample')
    def fits(m, n): m.c.require(eq(n, m.X.w), 'features')
    def z(m, x): return add(SUM(m.a.n, lambda j: mul(mul(m.a[j], m.y[j]), SUM(m.X.w, lambda k: mul(m.X.at(j, k), x(k))))), m.b)
sign = act('sign', 'norm')
def dual_one(f):
    def _(c, this, x): given(c, x); m = Dual(c, this); x = c.view(x); m.fits(x.n); return f(m.z(x.__getitem__))
    return _
def dual_many(f):
    def _(c, this, X): given(c, X); m = Dual(c, this); X = c.view(X); m.fits(X.w); return c.vec(X.h, lambda i: f(m.z(lambda k: X.at(i, k))))
    return _
ident = lambda v: v
contract(DS + 'propagatev', props=P, **F)(dual_one(ident)); contract(DS + 'propagatem', props=P, **F)(dual_many(ident))
for nm in ('evaluatev', 'model_test'): contract(DS + nm, props=P, **F)(dual_one(sign))
for nm in ('evaluatem', 'model_set_test'): contract(DS + nm, props=P, **F)(dual_many(sign))
def dual_forward(c, this):
    X = c.field(this, '_input_set'); z, y = dual_many(ident)(c, this, X), dual_many(sign)(c, this, X)
    c.setfield(this, '_z', z); c.setfield(this, '_y_hat', y)
contract(DS + 'forward_pass', props=P, **F)(dual_forward)
@contract(DS + 'kernel_functionv', props=P, **F)
def _(c, this, v, u, kind):
    given(c, u, v); u, v = c.view(u), c.view(v); c.require(eq(u.n, v.n), 'same length')
    return SUM(u.n, lambda k: mul(u[k], v[k])) if c.branch(eq(kind, ZERO)) else RZERO
def clamp(v, C): return ite(lt(C, v), C, ite(lt(v, RZERO), RZERO, v))
@contract(DS + 'alpha_projection', props=S, **F)
def _(c, this):
    a = c.field(this, '_alpha'); given(c, a); x = c.view(a); C = c.field(this, '_C')
    c.set(a, (x.n,), lambda k: clamp(x[k], C))
@contract(DS + 'cost', props=S, **F)
def _(c, this, a, X, y): return cost.NAMED['dual_form_svm'](c, None, a, X, y)

# ---- scores: the share of samples the last predictions get right
for cls, kind, flag, unset, label in (('MLPPMLP', 'v', None, None, '_output_set'), ('MLPPDualSVC', 'v', None, None, '_output_set'), ('MLPPAutoEncoder', 'm', '_initialized', None, '_input_set'),
        ('MLPPSoftmaxNet', 'm', None, soft_unset, '_output_set'), ('MLPPLogReg', 'v', '_initialized', None, '_output_set'), ('MLPPLinReg', 'v', '_initialized', None, '_output_set'),
        ('MLPPCLogLogReg', 'v', None, None, '_output_set'), ('MLPPExpReg', 'v', None, None, '_output_set')):
    @contract(cls + '::score', props='C18', **F)
    def _(c, this, kind=kind, flag=flag, unset=unset, label=label):
        if flag and not c.branch(c.field(this, flag)): return RZERO
        if unset and c.branch(unset(c, this)): return RZERO
        p, y = c.field(this, '_y_hat'), c.field(this, label); given(c, p, y)
        p, y = c.view(p), c.view(y); c.require(eq(p.n, y.n) if kind == 'v' else band(eq(p.h, y.h), eq(p.w, y.w), lt(ZERO, p.w)), 'one prediction per sample')
        return prep.performance(p, y) if kind == 'v' else prep.performance_rows(p, y)
