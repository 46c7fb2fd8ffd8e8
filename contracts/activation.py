"""MLPPActivation: values (C11), derivatives (C12), selection by identifier (C13)"""
from .common import *
from vf.state import FnPtr
from vf.numeval import USER, Ev
from vf import term as tm
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp", "core/stat.cpp", "core/activation.cpp"]
USES = ["lin_alg"]
A = 'MLPPActivation::'
exp_, log_, sqrt_ = f1('exp'), f1('log'), f1('sqrt')
PI = num(Fraction('3.141592653589793'), 'R')
def one_over(x): return rdiv(RONE, x)
def pw(x, k): return power(x, k)
# ---- the published formulas
def sigmoid(z): return one_over(add(RONE, exp_(neg(z))))
def softplus(z): return log_(add(RONE, exp_(z)))
def sinh_(z): return scale(Q(1, 2).args[0], sub(exp_(z), exp_(neg(z))))
def cosh_(z): return scale(Q(1, 2).args[0], add(exp_(z), exp_(neg(z))))
def tanh_(z): return rdiv(sub(exp_(z), exp_(neg(z))), add(exp_(z), exp_(neg(z))))
def swish(z): return mul(z, sigmoid(z))
def mish(z): return mul(z, tanh_(softplus(z)))
def sech(z): return one_over(cosh_(z))
def csch(z): return one_over(sinh_(z))
def coth(z): return one_over(tanh_(z))
def elu(z, c): return ite(le(RZERO, z), z, mul(c, sub(exp_(z), RONE)))
def d_elu(z, c): return ite(le(z, RZERO), mul(c, exp_(z)), RONE)
sq2pi = sqrt_(scale(2, PI))
def Qs(s): return num(Fraction(s), 'R')
gl = lambda z: add(mul(Qs('0.0356774'), pw(z, 3)), mul(Qs('0.797885'), z))
def gelu(z): return mul(mul(Qs('0.5'), z), add(RONE, tanh_(mul(sqrt_(rdiv(Q(2), PI)), add(z, mul(Qs('0.044715'), pw(z, 3)))))))
def d_gelu(z): return addn([mul(Qs('0.5'), tanh_(gl(z))), mul(add(mul(Qs('0.0535161'), pw(z, 3)), mul(Qs('0.398942'), z)), pw(sech(gl(z)), 2)), Qs('0.5')], 'R')
def sign(z): return ite(lt(z, RZERO), neg(RONE), ite(eq(z, RZERO), RZERO, RONE))
FORMULAS = {
 'linear': (lambda z: z, lambda z: RONE),
 'sigmoid': (sigmoid, lambda z: mul(sigmoid(z), sub(RONE, sigmoid(z)))),
 'swish': (swish, lambda z: add(swish(z), mul(sigmoid(z), sub(RONE, swish(z))))),
 'mish': (mish, lambda z: add(mul(mul(pw(sech(softplus(z)), 2), z), sigmoid(z)), rdiv(mish(z), z))),
 'sinc': (lambda z: rdiv(app('sin', z), z), lambda z: rdiv(sub(mul(z, app('cos', z)), app('sin', z)), mul(z, z))),
 'softplus': (softplus, sigmoid),
 'softsign': (lambda z: rdiv(z, add(RONE, rabs(z))), lambda z: one_over(pw(add(RONE, rabs(z)), 2))),
 'gaussian_cdf': (lambda z: mul(Q(1, 2), add(RONE, app('erf', rdiv(z, sqrt_(Q(2)))))), lambda z: mul(one_over(sq2pi), exp_(scale(Q(-1, 2).args[0], mul(z, z))))),
 'cloglog': (lambda z: sub(RONE, exp_(neg(exp_(z)))), lambda z: exp_(sub(z, exp_(z)))),
 'logit': (lambda z: log_(rdiv(z, sub(RONE, z))), lambda z: sub(one_over(z), one_over(sub(z, RONE)))),
 'unit_step': (lambda z: ite(lt(z, RZERO), RZERO, RONE), lambda z: RZERO),
 'relu': (lambda z: rmax(RZERO, z), lambda z: ite(le(z, RZERO), RZERO, RONE)),
 'gelu': (gelu, d_gelu),
 'sign': (sign, lambda z: RZERO),
 'sinh': (sinh_, cosh_), 'cosh': (cosh_, sinh_), 'tanh': (tanh_, lambda z: sub(RONE, pw(tanh_(z), 2))),
 'csch': (csch, lambda z: neg(mul(csch(z), coth(z)))), 'sech': (sech, lambda z: neg(mul(sech(z), tanh_(z)))), 'coth': (coth, lambda z: neg(pw(csch(z), 2))),
 'arsinh': (lambda z: log_(add(z, sqrt_(add(mul(z, z), RONE)))), lambda z: one_over(sqrt_(add(mul(z, z), RONE)))),
 'arcosh': (lambda z: log_(add(z, sqrt_(sub(mul(z, z), RONE)))), lambda z: one_over(sqrt_(sub(mul(z, z), RONE)))),
 'artanh': (lambda z: mul(Q(1, 2), log_(rdiv(add(RONE, z), sub(RONE, z)))), lambda z: one_over(sub(RONE, mul(z, z)))),
 'arcsch': (lambda z: log_(add(sqrt_(add(RONE, one_over(mul(z, z)))), one_over(z))), lambda z: neg(one_over(mul(mul(z, z), sqrt_(add(RONE, one_over(mul(z, z)))))))),
 'arsech': (lambda z: log_(add(one_over(z), mul(sqrt_(add(one_over(z), RONE)), sqrt_(sub(one_over(z), RONE))))), lambda z: neg(one_over(mul(z, sqrt_(sub(RONE, mul(z, z))))))),
 'arcoth': (lambda z: mul(Q(1, 2), log_(rdiv(add(RONE, z), sub(z, RONE)))), lambda z: one_over(sub(RONE, mul(z, z)))),
 'leaky_relu': (lambda z, c: rmax(mul(c, z), z), lambda z, c: ite(le(z, RZERO), c, RONE)),
 'elu': (elu, d_elu),
 'selu': (lambda z, l, c: mul(l, elu(z, c)), lambda z, l, c: mul(l, d_elu(z, c))),
}
def evaluate(f):
    """numeric value of a formula that callers see as an uninterpreted function"""
    def g(a, ev):
        vs = [tm.var('$arg%d' % i, 'R') for i in range(len(a))]
        e = Ev({'$arg%d' % i: x for i, x in enumerate(a)}); e.noise = ev.noise
        r = e(lift(f(*vs), 'R'))
        ev.close |= e.close; ev.extreme |= e.extreme
        return r
    g.with_ev = True
    return g
NAMED = {}
def named(name, props):
    def deco(f):
        NAMED[name] = f
        contract(A + name, props=props)(f)
        return f
    return deco
def family(name, f, kind, prop):
    full = name + '_' + kind
    USER['$act_' + full] = evaluate(f)
    @named(full + 'r', prop)
    def _(c, this, z, *p): return c.formula(full, f)(z, *p)
    @named(full + 'v', prop)
    def _(c, this, z, *p):
        given(c, z); x = c.view(z); g = c.formula(full, f); return c.vec(x.n, lambda k: g(x[k], *p))
    @named(full + 'm', prop)
    def _(c, this, z, *p):
        given(c, z); x = c.view(z); g = c.formula(full, f); return c.mat(x.h, x.w, c.arr(lambda k: g(x[k], *p)))
for nm, (f, d) in FORMULAS.items():
    family(nm, f, 'norm', 'C11'); family(nm, d, 'deriv', 'C12')

# ---- softmax: e^z_i / sum_j e^z_j (each row of a matrix); the scalar forms are placeholders
def softmax(n, at):
    s = SUM(n, lambda k: exp_(at(k)))
    return lambda k: rdiv(exp_(at(k)), s)
def maxof(n, at):
    """the running maximum, starting from minus infinity"""
    return FOLD(n, [neg(INF)], lambda k, s: [ite(lt(s[0], at(k)), at(k), s[0])], 0)
def adj(n, at):
    m = maxof(n, at)
    return softmax(n, lambda k: sub(at(k), m))
def adj2(n, at):
    m = maxof(n, at)
    return adj(n, lambda k: sub(at(k), m))
def rowwise(name, f, prop, scalar):
    @named(name + 'r', prop)
    def _(c, this, z): return scalar(z)
    @named(name + 'v', prop)
    def _(c, this, z):
        given(c, z); x = c.view(z); return c.vec(x.n, f(x.n, lambda k: x[k]))
    @named(name + 'm', prop)
    def _(c, this, z):
        given(c, z); x = c.view(z)
        return c.mat(x.h, x.w, lambda i, j: f(x.w, lambda k: x.at(i, k))(j))
rowwise('softmax_norm', softmax, 'C11', lambda z: z)
rowwise('softmax_deriv', softmax, 'C12', lambda z: z)
rowwise('adj_softmax_norm', adj, 'C11', lambda z: RZERO)
rowwise('adj_softmax_deriv', adj2, 'C12', lambda z: RZERO)
# ---- the Jacobian of softmax
for nm in ('softmax_deriv_normv', 'softmax_deriv_derivv'):
    @contract(A + nm, props='C12')
    def _(c, this, z):
        given(c, z); x = c.view(z)
        s = softmax(x.n, lambda k: x[k])
        return c.mat(x.n, x.n, lambda i, j: ite(eq(i, j), mul(s(i), sub(RONE, s(i))), neg(mul(s(i), s(j)))))

# ---- selection by identifier (C13)
ORDER = ['linear', 'sigmoid', 'swish', 'mish', 'sinc', 'softmax', 'softplus', 'softsign', 'adj_softmax', 'cloglog', 'logit', 'gaussian_cdf', 'relu', 'gelu',
         'sign', 'unit_step', 'sinh', 'cosh', 'tanh', 'csch', 'sech', 'coth', 'arsinh', 'arcosh', 'artanh', 'arcsch', 'arsech', 'arcoth']
SHORT = {'real': 'r', 'vector': 'v', 'matrix': 'm'}
def pick(c, func, kind, form, k, none):
    for i, nm in enumerate(ORDER):
        if c.branch(eq(func, I(i))): return k('%s_%s%s' % (nm, kind, SHORT[form]))
    return none
def ref(name): return FnPtr(name)
for form in SHORT:
    none = {'real': RZERO}.get(form, NULLO)
    for kind, word in (('norm', 'normal'), ('deriv', 'deriv')):
        @contract(A + 'run_activation_%s_%s' % (kind, form), props='C13')
        def _(c, this, func, z, kind=kind, form=form, none=none):
            return pick(c, func, kind, form, lambda n: NAMED[n](c, this, z), none)
    @contract(A + 'run_activation_' + form, props='C13')
    def _(c, this, func, z, deriv, form=form, none=none):
        kind = 'deriv' if c.branch(deriv) else 'norm'
        return pick(c, func, kind, form, lambda n: NAMED[n](c, this, z), none)
def ptr(c, name): return FnPtr(c.function(A + name))
for form in SHORT:
    for kind, word in (('norm', 'normal'), ('deriv', 'deriv')):
        @contract(A + 'get_activation_function_ptr_%s_%s' % (word, form), props='C13')
        def _(c, this, func, kind=kind, form=form):
            return pick(c, func, kind, form, lambda n: ptr(c, n), NULLPTR)
    @contract(A + 'get_activation_function_ptr_' + form, props='C13')
    def _(c, this, func, deriv, form=form):
        kind = 'deriv' if c.branch(deriv) else 'norm'
        return pick(c, func, kind, form, lambda n: ptr(c, n), NULLPTR)
