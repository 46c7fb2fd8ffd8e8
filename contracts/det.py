"""Determinant, cofactors, adjoint, inverse (C07)"""
from .common import *
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp", "core/stat.cpp"]
USES = ["vector", "matrix", "lin_alg", "stat"]
M = 'MLPPMatrix::'; L = 'MLPPLinAlg::'
P = 'C07'
def window(c, at, d):
    """the leading d x d entries at(i, j), laid out row by row"""
    return c.arr(lambda k: ite(band(le(ZERO, k), lt(k, mul(d, d))), at(idiv(k, d), imod(k, d)), RZERO))
def det(c, at, d): return uf('$det', 'R', d, window(c, at, d))
def minor(at, i, j):
    """row i and column j left out"""
    return lambda r, s: at(ite(lt(r, i), r, add(r, ONE)), ite(lt(s, j), s, add(s, ONE)))
def sign(i): return ite(eq(imod(i, I(2)), ZERO), RONE, neg(RONE))
def laplace(c, at, d):
    """expansion along the first row"""
    if c.branch(eq(d, ONE)): return at(ZERO, ZERO)
    if c.branch(eq(d, I(2))): return sub(mul(at(ZERO, ZERO), at(ONE, ONE)), mul(at(ZERO, ONE), at(ONE, ZERO)))
    e = sub(d, ONE)
    return SUM(d, lambda i: mul(mul(sign(i), at(ZERO, i)), det(c, minor(at, ZERO, i), e)))
def det_value(c, x, d):
    c.require(band(le(ONE, d), le(d, x.w), le(d, x.h)), 'order within the matrix')
    return det(c, x.at, d) if c.callee else laplace(c, x.at, d)
@contract(M + 'detb', props=P)
def _(c, this, A, d):
    if c.null(A): return RZERO
    return det_value(c, c.view(A), d)
@contract(L + 'detm', props=P, recursive=True)
def _(c, this, A, d):
    if c.null(A): return RZERO
    return det_value(c, c.view(A), d)
@contract(M + 'det', props=P)
def _(c, this, d):
    x = c.view(this)
    n = ite(eq(d, I(-1)), x.h, d)
    c.require(band(le(ONE, n), le(n, x.w), le(n, x.h)), 'order within the matrix')
    return det(c, x.at, n)
def cofactor(c, x, n, i, j):
    """the leading (n-1) x (n-1) entries; the rest is unspecified"""
    c.require(band(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), le(n, x.w), le(n, x.h)), 'row and column within the matrix')
    rest = c.any_arr(); m = minor(x.at, i, j); e = sub(n, ONE)
    return c.arr(lambda k: ite(band(lt(idiv(k, x.w), e), lt(imod(k, x.w), e)), m(idiv(k, x.w), imod(k, x.w)), sel(rest, k)))
def _kept(v, t, axis): return sub(t, ite(lt(v(axis), t), ONE, ZERO))      # how many of the first t indices stay
def _full(v, t): return eq(_kept(v, t, 'j'), sub(v('n'), ONE))
COUNTERS = [    # where the next entry of the minor goes: within one row of the matrix, and between the rows
    {'sub_j': lambda v, t, init: ite(eq(v('row'), v('i')), init, ite(_full(v, t), ZERO, _kept(v, t, 'j'))),
     'sub_i': lambda v, t, init: add(init, ite(band(ne(v('row'), v('i')), _full(v, t)), ONE, ZERO))},
    {'sub_j': lambda v, t, init: ZERO, 'sub_i': lambda v, t, init: _kept(v, t, 'i')}]
@contract(M + 'cofactor', props=P, literals={'n': [1]}, invariants=COUNTERS)
def _(c, this, n, i, j):
    x = c.view(this); return c.mat(x.h, x.w, cofactor(c, x, n, i, j))
@contract(M + 'cofactoro', props=P, literals={'n': [1]}, invariants=COUNTERS)
def _(c, this, n, i, j, out):
    if c.null(out): return
    c.require(FALSE if c.same(this, out) else TRUE, 'out is another matrix')
    x = c.view(this); c.set(out, (x.w, x.h), cofactor(c, x, n, i, j))
@contract(L + 'cofactornm', props=P, literals={'n': [1]}, invariants=COUNTERS)
def _(c, this, A, n, i, j):
    given(c, A); x = c.view(A); return c.mat(x.h, x.w, cofactor(c, x, n, i, j))
def adjugate(c, x): return adjugate_at(c, x.at, x.h)
def adjugate_at(c, at, n):
    if c.branch(eq(n, ONE)): return lambda i, j: RONE
    if c.branch(eq(n, I(2))): return lambda i, j: ite(eq(i, j), at(sub(ONE, i), sub(ONE, j)), neg(at(i, j)))
    return lambda i, j: mul(sign(add(i, j)), det(c, minor(at, j, i), sub(n, ONE)))
@contract(M + 'adjoint', props=P)
def _(c, this):
    x = c.view(this)
    if c.branch(ne(x.w, x.h)): return NULLO
    return c.mat(x.h, x.w, adjugate(c, x))
@contract(M + 'adjointo', props=P)
def _(c, this, out):
    if c.null(out): return
    c.require(FALSE if c.same(this, out) else TRUE, 'out is another matrix')
    x = c.view(this)
    if c.branch(ne(x.w, x.h)): return
    adj = adjugate(c, x)
    c.set(out, (x.w, x.h), c.arr2(x.w, adj))
@contract(L + 'adjointnm', props=P)
def _(c, this, A):
    if c.null(A): return NULLO
    x = c.view(A)
    if c.branch(ne(x.w, x.h)): return NULLO
    return c.mat(x.h, x.w, adjugate(c, x))
def inverse(c, x): return inverse_at(c, x.at, x.h)
def inverse_at(c, at, n):
    c.require(le(ONE, n), 'at least one row')
    f = adjugate_at(c, at, n); dt = det(c, at, n)
    return lambda i, j: mul(f(i, j), rdiv(RONE, dt))
@contract(M + 'inverse', props=P)
def _(c, this):
    x = c.view(this)
    if c.branch(ne(x.w, x.h)): return NULLO
    return c.mat(x.h, x.w, inverse(c, x))
@contract(M + 'inverseo', props=P)
def _(c, this, out):
    if c.null(out): return
    x = c.view(this)
    if c.branch(ne(x.w, x.h)): return
    c.set(out, (x.w, x.h), c.arr2(x.w, inverse(c, x)))
@contract(L + 'inversenm', props=P)
def _(c, this, A):
    if c.null(A): return NULLO
    x = c.view(A)
    if c.branch(ne(x.w, x.h)): return NULLO
    return c.mat(x.h, x.w, inverse(c, x))

# ---- least squares: (AtA)^-1 At
def gram(x): return lambda i, j: SUM(x.h, lambda k: mul(x.at(k, i), x.at(k, j)))
def pinverse(c, x):
    inv = inverse_at(c, gram(x), x.w)
    return lambda i, j: SUM(x.w, lambda k: mul(inv(i, k), x.at(j, k)))
@contract(M + 'pinverse', props=P)
def _(c, this): x = c.view(this); return c.mat(x.w, x.h, pinverse(c, x))
@contract(M + 'pinverseo', props=P)
def _(c, this, out):
    if c.null(out): return
    x = c.view(this); f = pinverse(c, x)
    c.set(out, (x.h, x.w), c.arr2(x.h, f))
@contract(L + 'pinversenm', props=P)
def _(c, this, A): given(c, A); x = c.view(A); return c.mat(x.w, x.h, pinverse(c, x))
# ---- A x = b by the inverse
def solve(c, x, b):
    c.require(eq(x.w, x.h), 'square'); c.require(eq(b.n, x.h), 'one right hand side per row')
    inv = inverse(c, x)
    return c.vec(x.h, lambda i: SUM(x.h, lambda k: mul(inv(i, k), b[k])))
@contract(M + 'solve', props=P)
def _(c, this, b): given(c, b); return solve(c, c.view(this), c.view(b))
@contract(L + 'solve', props=P)
def _(c, this, A, b): given(c, A, b); return solve(c, c.view(A), c.view(b))
@contract(L + 'linear_independence_checker', props=P)
def _(c, this, A):
    given(c, A); x = c.view(A); c.require(le(ONE, x.w), 'at least one column')
    return ne(det(c, gram(x), x.w), RZERO)
# ---- covariance of the rows
def mean(f, n): return rdiv(SUM(n, f), i2r(n))
def covariance(x):
    def f(i, j):
        a = lambda k: x.at(i, k); b = lambda k: x.at(j, k)
        ma, mb = mean(a, x.w), mean(b, x.w)
        return rdiv(SUM(x.w, lambda k: mul(sub(a(k), ma), sub(b(k), mb))), i2r(sub(x.w, ONE)))
    return f
@contract(M + 'cov', props=P)
def _(c, this): x = c.view(this); return c.mat(x.h, x.h, covariance(x))
@contract(M + 'covo', props=P)
def _(c, this, out):
    if c.null(out): return
    c.require(FALSE if c.same(this, out) else TRUE, 'out is another matrix')
    x = c.view(this); c.set(out, (x.h, x.h), c.arr2(x.h, covariance(x)))
@contract(L + 'covnm', props=P)
def _(c, this, A): given(c, A); x = c.view(A); return c.mat(x.h, x.h, covariance(x))
