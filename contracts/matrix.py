"""MLPPMatrix"""
from .common import *
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"]
USES = ["vector"]
M = 'MLPPMatrix::'

def ne2(x, y): return bor(ne(x.w, y.w), ne(x.h, y.h))

# ------------------------------------------------------------ element-wise families (C05)
def unary(name, f):
    @contract(M + name, props='C05 C21')
    def inplace(c, this, *a):
        x = c.view(this); c.set(this, (x.w, x.h), lambda k: f(x[k], *a))
    @contract(M + name + 'n', props='C05 C21')
    def new(c, this, *a):
        x = c.view(this); return c.mat(x.h, x.w, c.arr(lambda k: f(x[k], *a)))
    @contract(M + name + 'b', props='C05 C21')
    def into(c, this, src, *a):
        if c.null(src): return
        x = c.view(src); c.set(this, (x.w, x.h), lambda k: f(x[k], *a))
for nm in ('log', 'log10', 'exp', 'erf', 'sqrt', 'sin', 'cos'): unary(nm, f1(nm))
unary('abs', rabs)
unary('exponentiate', power_)
unary('cbrt', lambda x: power_(x, Q(1, 3)))

def binary(name, f):
    @contract(M + name, props='C05 C21')
    def inplace(c, this, b):
        if c.null(b): return
        x, y = c.view(this), c.view(b)
        if c.branch(ne2(x, y)): return
        c.set(this, (x.w, x.h), lambda k: f(x[k], y[k]))
    @contract(M + name + 'n', props='C05 C21')
    def new(c, this, b):
        if c.null(b): return NULLO
        x, y = c.view(this), c.view(b)
        if c.branch(ne2(x, y)): return NULLO
        return c.mat(x.h, x.w, c.arr(lambda k: f(x[k], y[k])))
    @contract(M + name + 'b', props='C05 C21')
    def into(c, this, a, b):
        if c.null(a) or c.null(b): return
        x, y = c.view(a), c.view(b)
        if c.branch(ne2(x, y)): return
        c.set(this, (x.w, x.h), lambda k: f(x[k], y[k]))
binary('add', add); binary('sub', sub); binary('hadamard_product', mul); binary('division_element_wise', rdiv)
binary('max', rmax); binary('min', rmin)

def scalar(name, f):
    @contract(M + name, props='C05 C21')
    def inplace(c, this, s):
        x = c.view(this); c.set(this, (x.w, x.h), lambda k: f(x[k], s))
    @contract(M + name + 'n', props='C05 C21')
    def new(c, this, s):
        x = c.view(this); return c.mat(x.h, x.w, c.arr(lambda k: f(x[k], s)))
    @contract(M + name + 'b', props='C05 C21')
    def into(c, this, s, a):
        if c.null(a): return
        x = c.view(a); c.set(this, (x.w, x.h), lambda k: f(x[k], s))
scalar('scalar_multiply', mul); scalar('scalar_add', add)

# ------------------------------------------------------------ storage and rows (C04)
S4 = 'C04 C21'
def wf(x):
    """a matrix of width 0 has no rows"""
    return bor(lt(ZERO, x.w), eq(x.h, ZERO))
def append_rows(c, this, n, h, arr):
    """h rows of width n > 0 with cells arr"""
    x = c.view(this)
    c.require(wf(x), 'a matrix of width 0 has no rows')
    if c.branch(band(ne(x.w, ZERO), ne(x.w, n))): return
    l = x.len
    c.set(this, (n, add(x.h, h)), lambda k: ite(lt(k, l), x[k], sel(arr, sub(k, l))))
for nm in ('row_add', 'row_add_pool_vector'):
    @contract(M + nm, props=S4)
    def _(c, this, row):
        n, arr = c.cview(row)
        if c.branch(eq(n, ZERO)): return
        append_rows(c, this, n, ONE, arr)
@contract(M + 'row_add_mlpp_vector', props=S4)
def _(c, this, row):
    if c.null(row): return
    x = c.view(row)
    if c.branch(eq(x.n, ZERO)): return
    append_rows(c, this, x.n, ONE, x.arr)
@contract(M + 'rows_add_mlpp_matrix', props=S4)
def _(c, this, o):
    if c.null(o): return
    x = c.view(o)
    if c.branch(eq(x.len, ZERO)): return
    append_rows(c, this, x.w, x.h, x.arr)
def inrow(x, i): return band(le(ZERO, i), lt(i, x.h))
@contract(M + 'row_remove', props=S4)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(inrow(x, i)): return
    c.set(this, (x.w, sub(x.h, ONE)), lambda k: ite(lt(k, mul(i, x.w)), x[k], x[add(k, x.w)]))
@contract(M + 'row_remove_unordered', props=S4)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(inrow(x, i)): return
    a = mul(i, x.w); l = mul(sub(x.h, ONE), x.w)
    c.set(this, (x.w, sub(x.h, ONE)), lambda k: ite(band(le(a, k), lt(k, add(a, x.w))), x[add(l, sub(k, a))], x[k]))
@contract(M + 'row_swap', props=S4)
def _(c, this, i, j):
    x = c.view(this)
    if not c.branch(band(inrow(x, i), inrow(x, j))): return
    a, b = mul(i, x.w), mul(j, x.w)
    c.set(this, (x.w, x.h), lambda k: ite(band(le(a, k), lt(k, add(a, x.w))), x[add(b, sub(k, a))],
                                          ite(band(le(b, k), lt(k, add(b, x.w))), x[add(a, sub(k, b))], x[k])))
@contract(M + 'resize', props=S4)
def _(c, this, s):
    w, h = s.f['x'], s.f['y']
    c.require(band(le(ZERO, w), le(ZERO, h)), 'extents not negative')
    x = c.view(this); rest = c.any_arr()
    c.set(this, (w, h), lambda k: ite(lt(k, x.len), x[k], sel(rest, k)))
@contract(M + 'clear', props=S4)
def _(c, this): c.set(this, (ZERO, ZERO), c.any_arr())
@contract(M + 'reset', props=S4)
def _(c, this):
    x = c.view(this)
    if c.branch(eq(x.len, ZERO)): return
    c.set(this, (ZERO, ZERO), c.any_arr())
@contract(M + 'empty', props=S4)
def _(c, this): return eq(c.view(this).len, ZERO)
@contract(M + 'data_size', props=S4)
def _(c, this): return c.view(this).len
@contract(M + 'size', props=S4)
def _(c, this): x = c.view(this); return c.size2(x.w, x.h)
@contract(M + 'calculate_index', props=S4)
def _(c, this, i, j): return add(mul(i, c.view(this).w), j)
@contract(M + 'element_get_index', props=S4)
def _(c, this, i):
    x = c.view(this)
    return x[i] if c.branch(band(le(ZERO, i), lt(i, x.len))) else RZERO
@contract(M + 'element_set_index', props=S4)
def _(c, this, i, v):
    x = c.view(this)
    if c.branch(band(le(ZERO, i), lt(i, x.len))): c.set(this, (x.w, x.h), store(x.arr, i, v))
def incell(x, i, j): return band(le(ZERO, j), lt(j, x.w), le(ZERO, i), lt(i, x.h))
@contract(M + 'element_get', props=S4)
def _(c, this, i, j):
    x = c.view(this)
    return x.at(i, j) if c.branch(incell(x, i, j)) else RZERO
@contract(M + 'element_set', props=S4)
def _(c, this, i, j, v):
    x = c.view(this)
    if c.branch(incell(x, i, j)): c.set(this, (x.w, x.h), store(x.arr, add(mul(i, x.w), j), v))
def row_of(x, i): return lambda k: x.at(i, k)
@contract(M + 'row_get_vector', props=S4)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(inrow(x, i)): return c.cnew(ZERO, c.any_arr())
    return c.cnew(x.w, row_of(x, i))
@contract(M + 'row_get_pool_vector', props=S4)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(inrow(x, i)): return c.cnew(ZERO, c.any_arr(), 'PoolRealArray')
    return c.cnew(x.w, row_of(x, i), 'PoolRealArray')
@contract(M + 'row_get_mlpp_vector', props=S4)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(inrow(x, i)): return NULLO
    return c.vec(x.w, row_of(x, i))
@contract(M + 'row_get_into_mlpp_vector', props=S4)
def _(c, this, i, t):
    if c.null(t): return
    x = c.view(this)
    if not c.branch(inrow(x, i)): return
    c.set(t, (x.w,), row_of(x, i))
def set_row(c, this, i, n, arr):
    x = c.view(this)
    if c.branch(ne(n, x.w)): return
    if not c.branch(inrow(x, i)): return
    a = mul(i, x.w)
    c.set(this, (x.w, x.h), lambda k: ite(band(le(a, k), lt(k, add(a, x.w))), sel(arr, sub(k, a)), x[k]))
for nm in ('row_set_vector', 'row_set_pool_vector', 'set_row_std_vector'):
    @contract(M + nm, props=S4)
    def _(c, this, i, row): set_row(c, this, i, *c.cview(row))
@contract(M + 'row_set_mlpp_vector', props=S4)
def _(c, this, i, row):
    if c.null(row): return
    x = c.view(row); set_row(c, this, i, x.n, x.arr)
@contract(M + 'fill', props=S4)
def _(c, this, v): x = c.view(this); c.set(this, (x.w, x.h), lambda k: v)
for nm, t in (('to_flat_vector', 'Vector<float>'), ('to_flat_pool_vector', 'PoolRealArray'), ('to_flat_std_vector', 'std::vector<float>')):
    @contract(M + nm, props=S4)
    def _(c, this, t=t): x = c.view(this); return c.cnew(x.len, x.arr, t)
@contract(M + 'duplicate_fast', props=S4)
def _(c, this): x = c.view(this); return c.mat(x.h, x.w, x.arr)
@contract(M + 'set_from_mlpp_matrix', props=S4)
def _(c, this, o):
    if c.null(o): return
    x = c.view(o); c.set(this, (x.w, x.h), x.arr)
@contract(M + 'set_from_mlpp_matrixr', props=S4)
def _(c, this, o): x = c.view(o); c.set(this, (x.w, x.h), x.arr)
@contract(M + 'set_from_ptr', props=S4)
def _(c, this, p, h, w):
    b = c.st.bufs[p.bid]
    c.require(band(le(ZERO, w), le(ZERO, h), eq(b.len, mul(w, h)), lt(ZERO, b.len)), 'the array holds exactly the cells')
    c.set(this, (w, h), b.arr)
@contract(M + 'is_equal_approx', props=S4)
def _(c, this, o, tol):
    if c.null(o): return FALSE
    if c.same(this, o): return TRUE
    x, y = c.view(this), c.view(o)
    if c.branch(ne2(x, y)): return FALSE
    return eq(FIRST(x.len, lambda k: bnot(approx_eq(x[k], y[k], tol))), x.len)

# ------------------------------------------------------------ products and structure (C06)
S6 = 'C06 C21'
def prod(x, y): return lambda i, j: SUM(x.w, lambda k: mul(x.at(i, k), y.at(k, j)))
@contract(M + 'mult', props=S6)
def _(c, this, B):
    if c.null(B): return
    x, y = c.view(this), c.view(B)
    if c.branch(ne(x.w, y.h)): return
    c.set(this, (y.w, x.h), c.arr2(y.w, prod(x, y)))
@contract(M + 'multn', props=S6)
def _(c, this, B):
    if c.null(B): return NULLO
    x, y = c.view(this), c.view(B)
    if c.branch(ne(x.w, y.h)): return NULLO
    return c.mat(x.h, y.w, prod(x, y))
@contract(M + 'multb', props=S6)
def _(c, this, A, B):
    if c.null(A) or c.null(B): return
    x, y = c.view(A), c.view(B)
    if c.branch(ne(x.w, y.h)): return
    c.set(this, (y.w, x.h), c.arr2(y.w, prod(x, y)))
@contract(M + 'transpose', props=S6)
def _(c, this):
    x = c.view(this); c.set(this, (x.h, x.w), c.arr2(x.h, lambda i, j: x.at(j, i)))
@contract(M + 'transposen', props=S6)
def _(c, this):
    x = c.view(this); return c.mat(x.w, x.h, lambda i, j: x.at(j, i))
@contract(M + 'transposeb', props=S6)
def _(c, this, A):
    if c.null(A): return
    x = c.view(A); c.set(this, (x.h, x.w), c.arr2(x.h, lambda i, j: x.at(j, i)))
def kron(x, y): return lambda i, j: mul(x.at(idiv(i, y.h), idiv(j, y.w)), y.at(imod(i, y.h), imod(j, y.w)))
@contract(M + 'kronecker_product', props=S6)
def _(c, this, B):
    if c.null(B): return
    x, y = c.view(this), c.view(B)
    w = mul(x.w, y.w); c.set(this, (w, mul(x.h, y.h)), c.arr2(w, kron(x, y)))
@contract(M + 'kronecker_productn', props=S6)
def _(c, this, B):
    if c.null(B): return NULLO
    x, y = c.view(this), c.view(B)
    return c.mat(mul(x.h, y.h), mul(x.w, y.w), kron(x, y))
@contract(M + 'kronecker_productb', props=S6)
def _(c, this, A, B):
    if c.null(A) or c.null(B): return
    x, y = c.view(A), c.view(B)
    w = mul(x.w, y.w); c.set(this, (w, mul(x.h, y.h)), c.arr2(w, kron(x, y)))
@contract(M + 'trace', props=S6)
def _(c, this):
    x = c.view(this); m = ite(lt(x.w, x.h), x.w, x.h)
    return SUM(m, lambda i: x.at(i, i))
def const(name, f):
    @contract(M + name, props=S6)
    def _(c, this, n, m, *a):
        c.require(band(le(ZERO, n), le(ZERO, m)), 'extents not negative')
        return c.mat(n, m, c.arr(lambda k: f(*a)))
const('matn_zero', lambda: RZERO); const('matn_one', lambda: RONE); const('matn_full', lambda k: i2r(k))
def eye(i, j): return ite(eq(i, j), RONE, RZERO)
@contract(M + 'identity', props=S6)
def _(c, this): x = c.view(this); c.set(this, (x.w, x.h), c.arr2(x.w, eye))
@contract(M + 'identityn', props=S6)
def _(c, this): x = c.view(this); return c.mat(x.h, x.w, eye)
@contract(M + 'identity_mat', props=S6)
def _(c, this, d):
    c.require(le(ZERO, d), 'order not negative'); return c.mat(d, d, eye)
@contract(M + 'create_identity_mat', props=S6)
def _(c, d):
    c.require(le(ZERO, d), 'order not negative'); return c.mat(d, d, eye)
def rot(theta, axis):
    s, co = app('sin', theta), app('cos', theta); o, z = RONE, RZERO
    return {-1: [[co, neg(s)], [s, co]], 0: [[o, z, z], [z, co, neg(s)], [z, s, co]],
            1: [[co, z, s], [z, o, z], [neg(s), z, co]], 2: [[co, neg(s), z], [s, co, z], [z, z, o]]}[axis]
def table(c, rows):
    h, w = len(rows), len(rows[0])
    def cell(k):
        r = rows[-1][-1]
        for t in range(h * w - 2, -1, -1): r = ite(eq(k, I(t)), rows[t // w][t % w], r)
        return r
    return I(w), I(h), c.arr(cell)
def rotm(c, theta, axis):
    for a in (-1, 0, 1, 2):
        if c.branch(eq(axis, I(a))): return table(c, rot(theta, a))
    return ZERO, ZERO, c.any_arr()
@contract(M + 'create_rotation_matrix', props=S6)
def _(c, this, theta, axis):
    w, h, arr = rotm(c, theta, axis)
    return c.mat(h, w, arr)
class RM:
    def __init__(self, w, h, arr): self.w = w; self.h = h; self.arr = arr
    def at(self, i, j): return sel(self.arr, add(mul(i, self.w), j))
@contract(M + 'rotate', props=S6)
def _(c, this, theta, axis):
    r = RM(*rotm(c, theta, axis)); x = c.view(this)
    if c.branch(ne(x.w, r.h)): return
    c.set(this, (r.w, x.h), c.arr2(r.w, prod(x, r)))
@contract(M + 'rotaten', props=S6)
def _(c, this, theta, axis):
    r = RM(*rotm(c, theta, axis)); x = c.view(this)
    if c.branch(ne(x.w, r.h)): return NULLO
    return c.mat(x.h, r.w, prod(x, r))
@contract(M + 'rotateb', props=S6)
def _(c, this, A, theta, axis):
    r = RM(*rotm(c, theta, axis))
    if c.null(A): return
    x = c.view(A)
    if c.branch(ne(x.w, r.h)): return
    c.set(this, (r.w, x.h), c.arr2(r.w, prod(x, r)))
@contract(M + 'flatten', props=S6)
def _(c, this): x = c.view(this); return c.vec(x.len, x.arr)
@contract(M + 'flatteno', props=S6)
def _(c, this, out):
    if c.null(out): return
    x = c.view(this); c.set(out, (x.len,), x.arr)
@contract(M + 'mult_vec', props=S6)
def _(c, this, b):
    if c.null(b): return NULLO
    x, y = c.view(this), c.view(b)
    if c.branch(lt(x.w, y.n)): return NULLO
    return c.vec(x.h, lambda i: SUM(y.n, lambda k: mul(x.at(i, k), y[k])))
@contract(M + 'mult_veco', props=S6)
def _(c, this, b, out):
    if c.null(out) or c.null(b): return
    x, y = c.view(this), c.view(b)
    if c.branch(lt(x.w, y.n)): return
    c.set(out, (x.h,), lambda i: SUM(y.n, lambda k: mul(x.at(i, k), y[k])))
def addv(x, y): return lambda i, j: add(x.at(i, j), y[j])
@contract(M + 'add_vec', props=S6)
def _(c, this, b):
    if c.null(b): return
    x, y = c.view(this), c.view(b)
    if c.branch(ne(x.w, y.n)): return
    c.set(this, (x.w, x.h), c.arr2(x.w, addv(x, y)))
@contract(M + 'add_vecn', props=S6)
def _(c, this, b):
    if c.null(b): return NULLO
    x, y = c.view(this), c.view(b)
    if c.branch(ne(x.w, y.n)): return NULLO
    return c.mat(x.h, x.w, addv(x, y))
@contract(M + 'add_vecb', props=S6)
def _(c, this, A, b):
    if c.null(A) or c.null(b): return
    x, y = c.view(A), c.view(b)
    if c.branch(ne(x.w, y.n)): return
    c.set(this, (x.w, x.h), c.arr2(x.w, addv(x, y)))
@contract(M + 'outer_product', props=S6)
def _(c, this, a, b):
    if c.null(a) or c.null(b): return
    x, y = c.view(a), c.view(b)
    c.set(this, (y.n, x.n), c.arr2(y.n, lambda i, j: mul(x[i], y[j])))
@contract(M + 'outer_productn', props=S6)
def _(c, this, a, b):
    if c.null(a) or c.null(b): return NULLO
    x, y = c.view(a), c.view(b)
    return c.mat(x.n, y.n, lambda i, j: mul(x[i], y[j]))
def imin(a, b): return ite(lt(a, b), a, b)
def diag(x, y, off): return lambda i, j: ite(band(eq(i, j), lt(i, y.n)), y[i], off(x, i, j))
keep = lambda x, i, j: x.at(i, j)
zero = lambda x, i, j: RZERO
for nm, off in (('diagonal_set', keep), ('diagonal_zeroed', zero)):
    @contract(M + nm, props=S6)
    def _(c, this, a, off=off):
        if c.null(a): return
        x, y = c.view(this), c.view(a)
        c.set(this, (x.w, x.h), c.arr2(x.w, diag(x, y, off)))
    @contract(M + nm + 'n', props=S6)
    def _(c, this, a, off=off):
        if c.null(a): return NULLO
        x, y = c.view(this), c.view(a)
        return c.mat(x.h, x.w, diag(x, y, off))

# ------------------------------------------------------------ from a list of rows
@contract(M + 'set_from_mlpp_vectors', props=S4, lists={'p_from': 'uniform'})
def _(c, this, A):
    x = c.lview(A)
    if c.branch(eq(x.n, ZERO)):
        if c.branch(ne(c.view(this).len, ZERO)): c.set(this, (ZERO, ZERO), lambda k: RZERO)
        return
    w = x.at(0).n
    c.set(this, (w, x.n), c.arr2(w, lambda i, j: x.at(i)[j]))
