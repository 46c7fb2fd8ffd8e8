"""MLPPConvolutions: convolution, pooling, image derivatives (C17)"""
from .common import *
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp", "core/activation.cpp", "core/stat.cpp", "core/convolutions.cpp"]
USES = ["vector", "matrix", "tensor", "lin_alg", "stat"]
C = 'MLPPConvolutions::'
P = 'C17'
def inside(i, n): return band(le(ZERO, i), lt(i, n))
def positions(c, N, F, S, P=ZERO): return c.positions(addn([N, neg(F), scale(2, P)], 'I'), S)
def sane(c, N, F, S, pad=ZERO):
    c.require(band(le(ONE, S), le(ZERO, pad), le(ONE, F), le(F, add(N, scale(2, pad)))), 'window, stride and padding make sense')
def padded(at, h, w, pad): return lambda i, j: ite(band(inside(sub(i, pad), h), inside(sub(j, pad), w)), at(sub(i, pad), sub(j, pad)), RZERO)
def convolved(x, f, S, pad):
    """the window at (i, j) starts at (i*S, j*S) of the padded input"""
    F = f.h; at = padded(x.at, x.h, x.w, pad)
    return lambda i, j: SUM(mul(F, F), lambda q: mul(at(add(mul(i, S), idiv(q, F)), add(mul(j, S), imod(q, F))), f[q]))
@contract(C + 'convolve_2d', props=P)
def _(c, this, inp, fil, S, pad):
    given(c, inp, fil); x, f = c.view(inp), c.view(fil)
    c.require(band(eq(x.w, x.h), eq(f.w, f.h)), 'square input and filter'); sane(c, x.h, f.h, S, pad)
    m = positions(c, x.h, f.h, S, pad)
    return c.mat(m, m, convolved(x, f, S, pad))
@contract(C + 'convolve_3d', props=P)
def _(c, this, inp, fil, S, pad):
    given(c, inp, fil); x, f = c.view(inp), c.view(fil)
    c.require(band(eq(x.w, x.h), eq(f.w, f.h), le(ONE, x.d), eq(imod(f.d, x.d), ZERO)), 'square slices, whole filters'); sane(c, x.h, f.h, S, pad)
    m = positions(c, x.h, f.h, S, pad); F = f.h; FF = mul(F, F); V = mul(x.d, FF)
    at = lambda t: padded(lambda i, j: x.at(t, i, j), x.h, x.w, pad)
    return c.ten(idiv(f.d, x.d), m, m, lambda n, i, j: SUM(V, lambda q: mul(at(idiv(q, FF))(add(mul(i, S), idiv(imod(q, FF), F)), add(mul(j, S), imod(q, F))), f[add(mul(n, V), q)])))
AVG, MIN = ZERO, ONE
POOLTYPE = lambda t: band(le(ZERO, t), lt(t, I(3)))
def pooled(c, n, at, kind):
    """the mean, the least or the greatest of at(0..n-1), as the kind of pooling asks"""
    if c.branch(eq(kind, AVG)): return rdiv(SUM(n, at), i2r(n))
    if c.branch(eq(kind, MIN)): return FOLD(n, [INF], lambda q, s: [ite(lt(at(q), s[0]), at(q), s[0])], 0)
    return FOLD(n, [neg(INF)], lambda q, s: [ite(lt(s[0], at(q)), at(q), s[0])], 0)
def kinds(c, kind): return 'avg' if c.branch(eq(kind, AVG)) else 'min' if c.branch(eq(kind, MIN)) else 'max'
def reduce_(k, n, at):
    if k == 'avg': return rdiv(SUM(n, at), i2r(n))
    if k == 'min': return FOLD(n, [INF], lambda q, s: [ite(lt(at(q), s[0]), at(q), s[0])], 0)
    return FOLD(n, [neg(INF)], lambda q, s: [ite(lt(s[0], at(q)), at(q), s[0])], 0)
@contract(C + 'pool_2d', props=P)
def _(c, this, inp, F, S, kind):
    given(c, inp); x = c.view(inp)
    c.require(eq(x.w, x.h), 'square input'); sane(c, x.h, F, S)
    m = positions(c, x.h, F, S); k = kinds(c, kind)
    return c.mat(m, m, lambda i, j: reduce_(k, mul(F, F), lambda q: x.at(add(mul(i, S), idiv(q, F)), add(mul(j, S), imod(q, F)))))
@contract(C + 'pool_3d', props=P)
def _(c, this, inp, F, S, kind):
    given(c, inp); x = c.view(inp)
    c.require(eq(x.w, x.h), 'square slices'); sane(c, x.h, F, S)
    m = positions(c, x.h, F, S); k = kinds(c, kind)
    return c.ten(x.d, m, m, lambda t, i, j: reduce_(k, mul(F, F), lambda q: x.at(t, add(mul(i, S), idiv(q, F)), add(mul(j, S), imod(q, F)))))
@contract(C + 'global_pool_2d', props=P)
def _(c, this, inp, kind):
    given(c, inp); x = c.view(inp); c.require(lt(ZERO, x.len), 'not empty')
    return reduce_(kinds(c, kind), x.len, lambda q: x[q])
@contract(C + 'global_pool_3d', props=P)
def _(c, this, inp, kind):
    given(c, inp); x = c.view(inp); n = mul(x.h, x.w); c.require(lt(ZERO, n), 'slices not empty')
    k = kinds(c, kind)
    return c.vec(x.d, lambda t: reduce_(k, n, lambda q: x[add(mul(t, n), q)]))
PI = Q(3141592653589793, 10**15)
def gauss(x, y, s):
    s2 = mul(s, s)
    return mul(rdiv(RONE, mul(mul(Q(2, 1), PI), s2)), app('exp', rdiv(neg(add(mul(x, x), mul(y, y))), mul(Q(2, 1), s2))))
@contract(C + 'gaussian_2d', props=P)
def _(c, this, x, y, s): return gauss(x, y, s)
def kernel(n, s):
    half = idiv(sub(n, ONE), I(2))
    return lambda i, j: gauss(i2r(sub(i, half)), i2r(sub(half, j)), s)
@contract(C + 'gaussian_filter_2d', props=P)
def _(c, this, n, s):
    c.require(le(ONE, n), 'at least one cell'); return c.mat(n, n, kernel(n, s))
def d_dx(x):
    at = lambda i, j: ite(inside(j, x.w), x.at(i, j), RZERO)
    return lambda i, j: sub(at(i, add(j, ONE)), at(i, sub(j, ONE)))
def d_dy(x):
    at = lambda i, j: ite(inside(i, x.h), x.at(i, j), RZERO)
    return lambda i, j: sub(at(sub(i, ONE), j), at(add(i, ONE), j))
def image(name, f):
    @contract(C + name, props=P)
    def _(c, this, inp):
        given(c, inp); x = c.view(inp); c.require(band(lt(ONE, x.h), lt(ONE, x.w)), 'at least two rows and columns')
        return c.mat(x.h, x.w, f(x))
image('dx', d_dx); image('dy', d_dy)
image('grad_magnitude', lambda x: lambda i, j: app('sqrt', add(mul(d_dx(x)(i, j), d_dx(x)(i, j)), mul(d_dy(x)(i, j), d_dy(x)(i, j)))))
image('grad_orientation', lambda x: lambda i, j: app('atan2', d_dy(x)(i, j), d_dx(x)(i, j)))
