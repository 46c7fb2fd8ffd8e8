"""MLPPLinAlg: the facade over vectors and matrices (C10)"""
from .common import *
from .vector import concat, concat_any
from .matrix import prod, kron, eye, addv
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp", "core/stat.cpp"]
USES = ["vector", "matrix"]
L = 'MLPPLinAlg::'
P = 'C10'
def ne2(x, y): return bor(ne(x.w, y.w), ne(x.h, y.h))

# ------------------------------------------------------------ matrices
def m2(name, f):
    @contract(L + name, props=P)
    def _(c, this, A, B):
        if c.null(A) or c.null(B): return NULLO
        x, y = c.view(A), c.view(B)
        if c.branch(ne2(x, y)): return NULLO
        return c.mat(x.h, x.w, c.arr(lambda k: f(x[k], y[k])))
m2('additionnm', add); m2('subtractionnm', sub); m2('hadamard_productnm', mul); m2('division_element_wisenvnm', rdiv)
@contract(L + 'maxnm', props=P)
def _(c, this, A, B):
    given(c, A, B); x, y = c.view(A), c.view(B)
    c.require(bnot(ne2(x, y)), 'same size')
    return c.mat(x.h, x.w, c.arr(lambda k: rmax(x[k], y[k])))
@contract(L + 'matmultnm', props=P)
def _(c, this, A, B):
    if c.null(A) or c.null(B): return NULLO
    x, y = c.view(A), c.view(B)
    if c.branch(ne(x.w, y.h)): return NULLO
    return c.mat(x.h, y.w, prod(x, y))
@contract(L + 'gram_matrix', props=P)
def _(c, this, A):
    given(c, A); x = c.view(A)
    return c.mat(x.w, x.w, lambda i, j: SUM(x.h, lambda k: mul(x.at(k, i), x.at(k, j))))
@contract(L + 'kronecker_productnm', props=P)
def _(c, this, A, B):
    if c.null(A) or c.null(B): return NULLO
    x, y = c.view(A), c.view(B)
    return c.mat(mul(x.h, y.h), mul(x.w, y.w), kron(x, y))
@contract(L + 'transposenm', props=P)
def _(c, this, A):
    given(c, A); x = c.view(A); return c.mat(x.w, x.h, lambda i, j: x.at(j, i))
for nm, f in (('scalar_multiplynm', mul), ('scalar_addnm', add)):
    @contract(L + nm, props=P)
    def _(c, this, s, A, f=f):
        if c.null(A): return NULLO
        x = c.view(A); return c.mat(x.h, x.w, c.arr(lambda k: f(x[k], s)))
def m1(name, f):
    @contract(L + name, props=P)
    def _(c, this, A, *a):
        if c.null(A): return NULLO
        x = c.view(A); return c.mat(x.h, x.w, c.arr(lambda k: f(x[k], *a)))
for nm in ('log', 'log10', 'exp', 'erf', 'sqrt', 'sin', 'cos'): m1(nm + 'nm', f1(nm))
m1('absnm', rabs); m1('exponentiatenm', power_); m1('cbrtnm', lambda x: power_(x, Q(1, 3)))
def const(name, f):
    @contract(L + name, props=P)
    def _(c, this, n, m, *a):
        c.require(band(le(ZERO, n), le(ZERO, m)), 'extents not negative')
        return c.mat(n, m, c.arr(lambda k: f(*a)))
const('zeromatnm', lambda: RZERO); const('onematnm', lambda: RONE); const('fullnm', lambda k: i2r(k))
@contract(L + 'identitym', props=P)
def _(c, this, d):
    c.require(le(ZERO, d), 'order not negative'); return c.mat(d, d, eye)
@contract(L + 'outer_product', props=P)
def _(c, this, a, b):
    given(c, a, b); x, y = c.view(a), c.view(b)
    return c.mat(x.n, y.n, lambda i, j: mul(x[i], y[j]))
@contract(L + 'mat_vec_multnv', props=P)
def _(c, this, A, b):
    if c.null(A) or c.null(b): return NULLO
    x, y = c.view(A), c.view(b)
    if c.branch(lt(x.w, y.n)): return NULLO
    return c.vec(x.h, lambda i: SUM(y.n, lambda k: mul(x.at(i, k), y[k])))
@contract(L + 'mat_vec_addnm', props=P)
def _(c, this, A, b):
    if c.null(A) or c.null(b): return NULLO
    x, y = c.view(A), c.view(b)
    if c.branch(ne(x.w, y.n)): return NULLO
    return c.mat(x.h, x.w, addv(x, y))
@contract(L + 'diagnm', props=P)
def _(c, this, a):
    given(c, a); x = c.view(a)
    return c.mat(x.n, x.n, lambda i, j: ite(eq(i, j), x[i], RZERO))
@contract(L + 'flattenvvnv', props=P)
def _(c, this, A):
    given(c, A); x = c.view(A); return c.vec(x.len, x.arr)
@contract(L + 'subtract_matrix_rowsnv', props=P)
def _(c, this, a, B):
    given(c, a, B); x, m = c.view(a), c.view(B)
    if c.branch(ne(m.w, x.n)): return c.vec(x.n, x.arr)
    return c.vec(x.n, lambda j: sub(x[j], SUM(m.h, lambda i: m.at(i, j))))

# ------------------------------------------------------------ vectors
def v2(name, f, into=True):
    @contract(L + name + 'nv', props=P)
    def _(c, this, a, b):
        if c.null(a) or c.null(b): return NULLO
        x, y = c.view(a), c.view(b)
        if c.branch(ne(x.n, y.n)): return NULLO
        return c.vec(x.n, lambda k: f(x[k], y[k]))
    if not into: return
    @contract(L + name + 'v', props=P)
    def _(c, this, a, b, out):
        if c.null(a) or c.null(b) or c.null(out): return
        x, y = c.view(a), c.view(b)
        if c.branch(ne(x.n, y.n)): return
        c.set(out, (x.n,), lambda k: f(x[k], y[k]))
v2('addition', add); v2('subtraction', sub); v2('hadamard_product', mul); v2('division_element_wise', rdiv, False)
for nm, f in (('scalar_multiply', mul), ('scalar_add', add)):
    @contract(L + nm + 'nv', props=P)
    def _(c, this, s, a, f=f):
        if c.null(a): return NULLO
        x = c.view(a); return c.vec(x.n, lambda k: f(x[k], s))
    @contract(L + nm + 'v', props=P)
    def _(c, this, s, a, out, f=f):
        if c.null(a) or c.null(out): return
        x = c.view(a); c.set(out, (x.n,), lambda k: f(x[k], s))
def v1(name, f):
    @contract(L + name, props=P)
    def _(c, this, a, *p):
        if c.null(a): return NULLO
        x = c.view(a); return c.vec(x.n, lambda k: f(x[k], *p))
for nm in ('log', 'log10', 'exp', 'erf', 'sqrt', 'sin', 'cos'): v1(nm + 'nv', f1(nm))
v1('absv', rabs); v1('exponentiatenv', power_); v1('cbrtnv', lambda x: power_(x, Q(1, 3)))
@contract(L + 'maxnvv', props=P)
def _(c, this, a, b):
    if c.null(a) or c.null(b): return c.empty_vec()
    x, y = c.view(a), c.view(b)
    if c.branch(ne(x.n, y.n)): return c.empty_vec()
    return c.vec(x.n, lambda k: rmax(x[k], y[k]))
@contract(L + 'dotnv', props=P)
def _(c, this, a, b):
    given(c, a, b); x, y = c.view(a), c.view(b)
    if c.branch(ne(x.n, y.n)): return RZERO
    return SUM(x.n, lambda k: mul(x[k], y[k]))
def vconst(name, f):
    @contract(L + name, props=P)
    def _(c, this, n, *a):
        c.require(le(ZERO, n), 'size not negative'); return c.vec(n, lambda k: f(*a))
vconst('zerovecnv', lambda: RZERO); vconst('onevecnv', lambda: RONE); vconst('fullnv', lambda k: i2r(k))
for nm, init, better in (('maxvr', neg(INF), lambda a, b: lt(b, a)), ('minvr', INF, lt)):
    @contract(L + nm, props=P)
    def _(c, this, a, init=init, better=better):
        if c.null(a): return init
        x = c.view(a); return FOLD(x.n, [init], lambda k, s: [ite(better(x[k], s[0]), x[k], s[0])], 0)
def dist2(x, y): return SUM(x.n, lambda k: power(sub(x[k], y[k]), 2))
for nm, f in (('euclidean_distance', lambda x, y: app('sqrt', dist2(x, y))), ('euclidean_distance_squared', dist2)):
    @contract(L + nm, props=P)
    def _(c, this, a, b, f=f):
        if c.null(a) or c.null(b): return RZERO
        x, y = c.view(a), c.view(b)
        if c.branch(ne(x.n, y.n)): return RZERO
        return f(x, y)
@contract(L + 'norm_sqv', props=P)
def _(c, this, a):
    if c.null(a): return RZERO
    x = c.view(a); return SUM(x.n, lambda k: power(x[k], 2))
@contract(L + 'sum_elementsv', props=P)
def _(c, this, a):
    given(c, a); x = c.view(a); return SUM(x.n, lambda k: x[k])
@contract(L + 'vector_projection', props=P)
def _(c, this, a, b):
    """the component of b along a"""
    given(c, a, b); x, y = c.view(a), c.view(b)
    ab = ite(eq(x.n, y.n), SUM(x.n, lambda k: mul(x[k], y[k])), RZERO)
    q = rdiv(ab, SUM(x.n, lambda k: power(x[k], 2)))
    return c.vec(x.n, lambda k: mul(x[k], q))

# ------------------------------------------------------------ lists of matrices: element by element
def lists2(name, f):
    @contract(L + name, props=P, lists={'B': 'A'})
    def _(c, this, A, B):
        x, y = c.lview(A), c.lview(B); c.require(eq(x.n, y.n), 'as many matrices')
        return c.list(x.n, 'MLPPMatrix', lambda i: x.at(i).shape, lambda i: lambda k: f(x.at(i)[k], y.at(i)[k]))
lists2('additionnvt', add); lists2('division_element_wisenvnvt', rdiv); lists2('maxnvt', rmax)
def lists1(name, f, arg=0):
    @contract(L + name, props=P)
    def _(c, this, *a):
        a = list(a); x = c.lview(a.pop(arg))
        return c.list(x.n, 'MLPPMatrix', lambda i: x.at(i).shape, lambda i: lambda k: f(x.at(i)[k], *a))
lists1('sqrtnvt', f1('sqrt')); lists1('exponentiatenvt', power_); lists1('absnvt', rabs); lists1('scalar_multiplynvt', mul, 1); lists1('scalar_addnvt', add, 1)
@contract(L + 'resizencvt', props=P)
def _(c, this, A):
    """as many matrices of the same shapes"""
    x = c.lview(A); return c.list(x.n, 'MLPPMatrix', lambda i: x.at(i).shape, lambda i: c.any_arr())
for tag, how, opt in (('', concat, {'lists': {'A': 'uniform'}}), ('#any', concat_any, {'bounded': 'concatenation of vectors of different lengths'})):
    @contract(L + 'flattenmnv' + tag, props=P, **opt)
    def _(c, this, A, how=how): n, f = how(c.lview(A)); return c.vec(n, f)
