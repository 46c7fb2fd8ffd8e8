"""MLPPStat: descriptive statistics (C16)"""
from .common import *
from .activation import FORMULAS
from vf.numeval import USER, Ev
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp", "core/activation.cpp", "core/stat.cpp"]
USES = ["vector", "lin_alg", "activation"]
S = 'MLPPStat::'
P = 'C16'
sqrt_ = f1('sqrt')
class Line:
    """n values at(0), at(1), ..."""
    def __init__(s, n, at): s.n, s.at = n, at
    def __getitem__(s, k): return s.at(k)
FORMULA = {}
def value(c, name, x):
    """a statistic of x; its own name (an uninterpreted function of the values) in callers that only pass it on"""
    if not getattr(c.ex, 'opaque', False): return FORMULA[name](x)
    return uf('$stat_' + name, 'R', x.n, canonical(x.n, c.arr(lambda k: x[k])))
def evaluate(f):
    def g(a, ev):
        e = Ev({'$n': a[0], '$arr': [a[1](i) for i in range(a[0])]}); e.noise = ev.noise; arr = tm.var('$arr', 'AR')
        r = e(lift(f(Line(tm.var('$n', 'I'), lambda k: sel(arr, k))), 'R'))
        ev.close |= e.close; ev.extreme |= e.extreme
        return r
    g.with_ev = True
    return g
def one(name, f, **kw):
    FORMULA[name] = f
    USER['$stat_' + name] = evaluate(f)
    @contract(S + name, props=P, **kw)
    def _(c, this, x, *a):
        if c.null(x): return RZERO
        return f(c.view(x), *a) if a else value(c, name, c.view(x))
def two(name, f, check=True):
    """two samples of one length"""
    @contract(S + name, props=P)
    def _(c, this, x, y, *a):
        if c.null(x) or c.null(y): return RZERO
        x, y = c.view(x), c.view(y)
        if check and c.branch(ne(x.n, y.n)): return RZERO
        if not check: c.require(eq(x.n, y.n), 'as many values as responses')
        return f(x, y, *a)
def total(x, f): return SUM(x.n, lambda k: f(x[k]))
def mean(x): return rdiv(total(x, lambda v: v), i2r(x.n))
def var_(x):
    m = mean(x); return rdiv(total(x, lambda v: power(sub(v, m), 2)), i2r(sub(x.n, ONE)))
def cov(x, y):
    a, b = mean(x), mean(y); return rdiv(SUM(x.n, lambda k: mul(sub(x[k], a), sub(y[k], b))), i2r(sub(x.n, ONE)))
def sd(x): return sqrt_(var_(x))
def corr(x, y): return rdiv(cov(x, y), mul(sd(x), sd(y)))
def b1(x, y): return rdiv(cov(x, y), var_(x))
one('meanv', mean); one('variancev', var_); one('standard_deviationv', sd)
two('covariancev', cov)
two('correlation', corr, check=False); two('r2', lambda x, y: power(corr(x, y), 2), check=False)
two('b1_estimation', b1, check=False); two('b0_estimation', lambda x, y: sub(mean(y), mul(b1(x, y), mean(x))), check=False)
def top(x): return FOLD(x.n, [neg(INF)], lambda k, s: [ite(lt(s[0], x[k]), x[k], s[0])], 0)
def low(x): return FOLD(x.n, [INF], lambda k, s: [ite(lt(x[k], s[0]), x[k], s[0])], 0)
one('range', lambda x: sub(top(x), low(x)))
one('midrange', lambda x: rdiv(add(top(x), low(x)), Q(2)),
    recorded=lambda c, this, x: RZERO if c.null(x) else rdiv(sub(top(c.view(x)), low(c.view(x))), Q(2)))
def mad(x):
    m = mean(x); return rdiv(total(x, lambda v: rabs(sub(v, m))), i2r(x.n))
one('abs_avg_deviation', mad)
@contract(S + 'median', props=P)
def _(c, this, x):
    """the middle of the ordered values, or the mean of the two middle ones"""
    if c.null(x): return RZERO
    x = c.view(x); c.require(lt(ZERO, x.n), 'values given')
    h = idiv(x.n, I(2)); o = lambda k: order_stat(x.n, k, x.arr)
    if c.branch(eq(imod(x.n, I(2)), ZERO)): return mul(Q(1, 2), add(o(sub(h, ONE)), o(h)))
    return o(h)
# ---- means
two('weighted_mean', lambda x, w: rdiv(SUM(x.n, lambda k: mul(x[k], w[k])), SUM(x.n, lambda k: w[k])))
one('geometric_mean', lambda x: power_(FOLD(x.n, [RONE], lambda k, s: [mul(s[0], x[k])], 0), rdiv(RONE, i2r(x.n))))
one('harmonic_mean', lambda x: rdiv(i2r(x.n), total(x, lambda v: rdiv(RONE, v))))
one('rms', lambda x: sqrt_(rdiv(total(x, lambda v: mul(v, v)), i2r(x.n))))
one('power_mean', lambda x, p: power_(rdiv(total(x, lambda v: power_(v, p)), i2r(x.n)), rdiv(RONE, p)))
def lehmer(x, p, w=lambda k: RONE):
    return rdiv(SUM(x.n, lambda k: mul(w(k), power_(x[k], p))), SUM(x.n, lambda k: mul(w(k), power_(x[k], sub(p, RONE)))))
one('lehmer_mean', lehmer); one('contra_harmonic_mean', lambda x: lehmer(x, Q(2)))
two('weighted_lehmer_mean', lambda x, w, p: lehmer(x, p, lambda k: w[k]))
def pure(name, f, **kw):
    @contract(S + name, props=P, **kw)
    def _(c, this, *a): return f(c, *a)
E_ = num(Fraction('2.718281828459045'), 'R')
pure('chebyshev_ineq', lambda c, k: sub(RONE, rdiv(RONE, mul(k, k))))
pure('heronian_mean', lambda c, a, b: scale(Q(1, 3).args[0], addn([a, sqrt_(mul(a, b)), b], 'R')))
pure('heinz_mean', lambda c, a, b, x: scale(Q(1, 2).args[0], add(mul(power_(a, x), power_(b, sub(RONE, x))), mul(power_(a, sub(RONE, x)), power_(b, x)))))
arsinh = FORMULAS['arsinh'][0]
pure('neuman_sandor_mean', lambda c, a, b: rdiv(sub(a, b), scale(Q(2).args[0], arsinh(rdiv(sub(a, b), add(a, b))))),
     recorded=lambda c, this, a, b: scale(Q(1, 2).args[0], mul(sub(a, b), arsinh(rdiv(sub(a, b), add(a, b))))))
pure('stolarsky_mean', lambda c, x, y, p: x if c.branch(eq(x, y)) else power_(rdiv(sub(power_(x, p), power_(y, p)), mul(p, sub(x, y))), rdiv(RONE, sub(p, RONE))))
pure('identric_mean', lambda c, x, y: x if c.branch(eq(x, y)) else mul(rdiv(RONE, E_), power_(rdiv(power_(x, x), power_(y, y)), rdiv(RONE, sub(x, y)))))
pure('log_mean', lambda c, x, y: x if c.branch(eq(x, y)) else rdiv(sub(y, x), sub(app('log', y), app('log', x))))
# the values that occur most often, in the order of their first occurrence
@contract(S + 'mode', props=P, bounded='counts are kept in a hash map keyed by the values', native=True)
def _(c, this, x):
    given(c, x); x = c.view(x); c.require(lt(ZERO, x.n), 'values given')
    times = lambda v: count(x.n, lambda s: eq(x[s], v))
    new = lambda t: eq(FIRST(t, lambda s: eq(x[s], x[t])), t)
    most = lambda t: eq(FIRST(x.n, lambda s: lt(times(x[t]), times(x[s]))), x.n)
    n, f = filtered(x.n, lambda t: band(new(t), most(t)), lambda t: x[t])
    return c.vec(n, f)
