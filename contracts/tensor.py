"""MLPPTensor3"""
from .common import *
FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"]
USES = ["vector", "matrix"]
T3 = 'MLPPTensor3::'
E = 'C09 C21'
def shp(x): return (x.w, x.h, x.d)
def ne3(x, y): return bor(ne(x.w, y.w), ne(x.h, y.h), ne(x.d, y.d))
def like(c, x, f): return c.new('MLPPTensor3', shp(x), c.arr(f))

# ------------------------------------------------------------ element-wise families (C09)
def unary(name, f):
    @contract(T3 + name, props=E)
    def _(c, this, *a):
        x = c.view(this); c.set(this, shp(x), lambda k: f(x[k], *a))
    @contract(T3 + name + 'n', props=E)
    def _(c, this, *a):
        x = c.view(this); return like(c, x, lambda k: f(x[k], *a))
    @contract(T3 + name + 'b', props=E)
    def _(c, this, src, *a):
        if c.null(src): return
        x = c.view(src); c.set(this, shp(x), lambda k: f(x[k], *a))
unary('sqrt', f1('sqrt')); unary('exponentiate', power_); unary('abs', rabs)
def binary(name, f):
    @contract(T3 + name, props=E)
    def _(c, this, b):
        if c.null(b): return
        x, y = c.view(this), c.view(b)
        if c.branch(ne3(x, y)): return
        c.set(this, shp(x), lambda k: f(x[k], y[k]))
    @contract(T3 + name + 'n', props=E)
    def _(c, this, b):
        if c.null(b): return NULLO
        x, y = c.view(this), c.view(b)
        if c.branch(ne3(x, y)): return NULLO
        return like(c, x, lambda k: f(x[k], y[k]))
    @contract(T3 + name + 'b', props=E)
    def _(c, this, a, b):
        if c.null(a) or c.null(b): return
        x, y = c.view(a), c.view(b)
        if c.branch(ne3(x, y)): return
        c.set(this, shp(x), lambda k: f(x[k], y[k]))
binary('add', add); binary('sub', sub); binary('hadamard_product', mul); binary('division_element_wise', rdiv); binary('max', rmax)
def scalar(name, f):
    @contract(T3 + name, props=E)
    def _(c, this, s):
        x = c.view(this); c.set(this, shp(x), lambda k: f(x[k], s))
    @contract(T3 + name + 'n', props=E)
    def _(c, this, s):
        x = c.view(this); return like(c, x, lambda k: f(x[k], s))
    @contract(T3 + name + 'b', props=E)
    def _(c, this, s, a):
        if c.null(a): return
        x = c.view(a); c.set(this, shp(x), lambda k: f(x[k], s))
scalar('scalar_multiply', mul); scalar('scalar_add', add)
@contract(T3 + 'flatten', props=E)
def _(c, this): x = c.view(this); return c.vec(x.len, x.arr)
@contract(T3 + 'flatteno', props=E)
def _(c, this, out):
    if c.null(out): return
    x = c.view(this); c.set(out, (x.len,), x.arr)
@contract(T3 + 'tensor_vec_mult', props=E)
def _(c, this, b):
    given(c, b); x, y = c.view(this), c.view(b)
    c.require(eq(x.w, y.n), 'one factor per column')
    return c.mat(x.d, x.h, lambda i, j: SUM(x.w, lambda k: mul(x.at(i, j, k), y[k])))

# ------------------------------------------------------------ storage (C08)
S8 = 'C08 C21'
@contract(T3 + 'size', props=S8)
def _(c, this): x = c.view(this); return c.size3(*shp(x))
@contract(T3 + 'data_size', props=S8)
def _(c, this): return c.view(this).len
@contract(T3 + 'z_slice_data_size', props=S8)
def _(c, this): x = c.view(this); return mul(x.w, x.h)
@contract(T3 + 'z_slice_size', props=S8)
def _(c, this): x = c.view(this); return c.size2(x.w, x.h)
@contract(T3 + 'calculate_index', props=S8)
def _(c, this, z, y, x_):
    x = c.view(this); return addn([mul(mul(z, x.w), x.h), mul(y, x.w), x_], 'I')
@contract(T3 + 'calculate_z_slice_index', props=S8)
def _(c, this, z): x = c.view(this); return mul(mul(z, x.w), x.h)
@contract(T3 + 'empty', props=S8)
def _(c, this): x = c.view(this); return band(eq(x.w, ZERO), eq(x.h, ZERO), eq(x.d, ZERO))
def rng(i, n): return band(le(ZERO, i), lt(i, n))
def cell(x, z, y, x_): return band(rng(x_, x.w), rng(y, x.h), rng(z, x.d))
@contract(T3 + 'element_get', props=S8)
def _(c, this, z, y, x_):
    x = c.view(this)
    return x.at(z, y, x_) if c.branch(cell(x, z, y, x_)) else RZERO
@contract(T3 + 'element_set', props=S8)
def _(c, this, z, y, x_, v):
    x = c.view(this)
    if c.branch(cell(x, z, y, x_)): c.set(this, shp(x), store(x.arr, addn([mul(mul(z, x.w), x.h), mul(y, x.w), x_], 'I'), v))
@contract(T3 + 'element_get_index', props=S8)
def _(c, this, i):
    x = c.view(this)
    return x[i] if c.branch(rng(i, x.len)) else RZERO
@contract(T3 + 'element_set_index', props=S8)
def _(c, this, i, v):
    x = c.view(this)
    if c.branch(rng(i, x.len)): c.set(this, shp(x), store(x.arr, i, v))
@contract(T3 + 'resize', props=S8)
def _(c, this, s):
    w, h, d = s.f['x'], s.f['y'], s.f['z']
    c.require(band(le(ZERO, w), le(ZERO, h), le(ZERO, d)), 'extents not negative')
    x = c.view(this); rest = c.any_arr()
    c.set(this, (w, h, d), lambda k: ite(lt(k, x.len), x[k], sel(rest, k)))
@contract(T3 + 'clear', props=S8)
def _(c, this): c.set(this, (ZERO, ZERO, ZERO), c.any_arr())
@contract(T3 + 'reset', props=S8)
def _(c, this):
    x = c.view(this)
    if c.branch(eq(x.len, ZERO)): return
    c.set(this, (ZERO, ZERO, ZERO), c.any_arr())
@contract(T3 + 'shape_set', props=S8)
def _(c, this, s):
    w, h, d = s.f['x'], s.f['y'], s.f['z']
    c.require(band(le(ZERO, w), le(ZERO, h), le(ZERO, d)), 'extents not negative')
    x = c.view(this)
    if c.branch(ne(mul(mul(w, h), d), x.len)): return
    c.set(this, (w, h, d), x.arr)
@contract(T3 + 'fill', props=S8)
def _(c, this, v): x = c.view(this); c.set(this, shp(x), lambda k: v)
def add_slice(c, this, n, arr, w=None, h=None):
    """one slice of n cells at the end"""
    x = c.view(this)
    if c.branch(eq(n, ZERO)): return
    if c.branch(ne(mul(x.w, x.h), n) if w is None else bor(ne(x.w, w), ne(x.h, h))): return
    l = x.len
    c.set(this, (x.w, x.h, add(x.d, ONE)), lambda k: ite(lt(k, l), x[k], sel(arr, sub(k, l))))
for nm in ('z_slice_add', 'z_slice_add_pool_vector'):
    @contract(T3 + nm, props=S8)
    def _(c, this, row): add_slice(c, this, *c.cview(row))
@contract(T3 + 'z_slice_add_mlpp_vector', props=S8)
def _(c, this, row):
    if c.null(row): return
    y = c.view(row); add_slice(c, this, y.n, y.arr)
@contract(T3 + 'z_slice_add_mlpp_matrix', props=S8)
def _(c, this, m):
    if c.null(m): return
    y = c.view(m); add_slice(c, this, y.len, y.arr, y.w, y.h)
@contract(T3 + 'z_slice_remove', props=S8)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(rng(i, x.d)): return
    fm = mul(x.w, x.h)
    c.set(this, (x.w, x.h, sub(x.d, ONE)), lambda k: ite(lt(k, mul(i, fm)), x[k], x[add(k, fm)]))
@contract(T3 + 'z_slice_remove_unordered', props=S8)
def _(c, this, i):
    x = c.view(this)
    if not c.branch(rng(i, x.d)): return
    fm = mul(x.w, x.h); a = mul(i, fm); l = mul(sub(x.d, ONE), fm)
    c.set(this, (x.w, x.h, sub(x.d, ONE)), lambda k: ite(band(le(a, k), lt(k, add(a, fm))), x[add(l, sub(k, a))], x[k]))
@contract(T3 + 'z_slice_swap', props=S8)
def _(c, this, i, j):
    x = c.view(this)
    if not c.branch(band(rng(i, x.d), rng(j, x.d))): return
    fm = mul(x.w, x.h); a, b = mul(i, fm), mul(j, fm)
    c.set(this, shp(x), lambda k: ite(band(le(a, k), lt(k, add(a, fm))), x[add(b, sub(k, a))],
                                      ite(band(le(b, k), lt(k, add(b, fm))), x[add(a, sub(k, b))], x[k])))
def row_of(x, z, y): return lambda k: x.at(z, y, k)
def inrow(x, z, y): return band(rng(y, x.h), rng(z, x.d))
for nm, t in (('row_get_vector', 'Vector<float>'), ('row_get_pool_vector', 'PoolRealArray')):
    @contract(T3 + nm, props=S8)
    def _(c, this, z, y, t=t):
        x = c.view(this)
        if not c.branch(inrow(x, z, y)): return c.cnew(ZERO, c.any_arr(), t)
        return c.cnew(x.w, row_of(x, z, y), t)
@contract(T3 + 'row_get_mlpp_vector', props=S8)
def _(c, this, z, y):
    x = c.view(this)
    if not c.branch(inrow(x, z, y)): return NULLO
    return c.vec(x.w, row_of(x, z, y))
@contract(T3 + 'row_get_into_mlpp_vector', props=S8)
def _(c, this, z, y, t):
    if c.null(t): return
    x = c.view(this)
    if not c.branch(inrow(x, z, y)): return
    c.set(t, (x.w,), row_of(x, z, y))
def set_cells(c, this, x, a, n, arr):
    c.set(this, shp(x), lambda k: ite(band(le(a, k), lt(k, add(a, n))), sel(arr, sub(k, a)), x[k]))
def set_row(c, this, z, y, n, arr):
    x = c.view(this)
    if c.branch(ne(n, x.w)) or not c.branch(inrow(x, z, y)): return
    set_cells(c, this, x, add(mul(mul(z, x.w), x.h), mul(y, x.w)), x.w, arr)
for nm in ('row_set_vector', 'row_set_pool_vector'):
    @contract(T3 + nm, props=S8)
    def _(c, this, z, y, row): set_row(c, this, z, y, *c.cview(row))
@contract(T3 + 'row_set_mlpp_vector', props=S8)
def _(c, this, z, y, row):
    if c.null(row): return
    v = c.view(row); set_row(c, this, z, y, v.n, v.arr)
def slice_of(x, z):
    a = mul(mul(z, x.w), x.h); return lambda k: x[add(a, k)]
for nm, t in (('z_slice_get_vector', 'Vector<float>'), ('z_slice_get_pool_vector', 'PoolRealArray')):
    @contract(T3 + nm, props=S8)
    def _(c, this, z, t=t):
        x = c.view(this)
        if not c.branch(rng(z, x.d)): return c.cnew(ZERO, c.any_arr(), t)
        return c.cnew(mul(x.w, x.h), slice_of(x, z), t)
@contract(T3 + 'z_slice_get_mlpp_vector', props=S8)
def _(c, this, z):
    x = c.view(this)
    if not c.branch(rng(z, x.d)): return NULLO
    return c.vec(mul(x.w, x.h), slice_of(x, z))
@contract(T3 + 'z_slice_get_into_mlpp_vector', props=S8)
def _(c, this, z, t):
    given(c, t); x = c.view(this)
    if not c.branch(rng(z, x.d)): return
    c.set(t, (mul(x.w, x.h),), slice_of(x, z))
@contract(T3 + 'z_slice_get_mlpp_matrix', props=S8)
def _(c, this, z):
    x = c.view(this)
    if not c.branch(rng(z, x.d)): return NULLO
    if c.branch(eq(mul(x.w, x.h), ZERO)): return c.mat(0, 0, c.any_arr())
    return c.mat(x.h, x.w, c.arr(slice_of(x, z)))
@contract(T3 + 'z_slice_get_into_mlpp_matrix', props=S8)
def _(c, this, z, t):
    given(c, t); x = c.view(this)
    if not c.branch(rng(z, x.d)): return
    c.set(t, (x.w, x.h), slice_of(x, z))
def set_slice(c, this, z, n, arr, w=None, h=None):
    x = c.view(this); fm = mul(x.w, x.h)
    if not c.branch(rng(z, x.d)): return
    if c.branch(ne(n, fm) if w is None else bor(ne(w, x.w), ne(h, x.h))): return
    set_cells(c, this, x, mul(mul(z, x.w), x.h), fm, arr)
for nm in ('z_slice_set_vector', 'z_slice_set_pool_vector'):
    @contract(T3 + nm, props=S8)
    def _(c, this, z, row): set_slice(c, this, z, *c.cview(row))
@contract(T3 + 'z_slice_set_mlpp_vector', props=S8)
def _(c, this, z, row):
    if c.null(row): return
    v = c.view(row); set_slice(c, this, z, v.n, v.arr)
@contract(T3 + 'z_slice_set_mlpp_matrix', props=S8)
def _(c, this, z, m):
    if c.null(m): return
    v = c.view(m); set_slice(c, this, z, v.len, v.arr, v.w, v.h)
def xcell(x, i): return lambda z, y: x.at(z, y, i)
def ycell(x, i): return lambda z, k: x.at(z, i, k)
for ax, ext, cl in (('x', lambda x: x.w, xcell), ('y', lambda x: x.h, ycell)):
    def wid(x, ax=ax): return x.h if ax == 'x' else x.w
    @contract(T3 + ax + '_slice_get_into', props=S8)
    def _(c, this, i, t, ext=ext, cl=cl, wid=wid):
        x = c.view(this)
        if not c.branch(rng(i, ext(x))): return
        if c.null(t): return
        c.set(t, (wid(x), x.d), c.arr2(wid(x), cl(x, i)))
    @contract(T3 + ax + '_slice_get', props=S8)
    def _(c, this, i, ext=ext, cl=cl, wid=wid):
        x = c.view(this)
        if not c.branch(rng(i, ext(x))): return NULLO
        return c.mat(x.d, wid(x), cl(x, i))
    @contract(T3 + ax + '_slice_set', props=S8)
    def _(c, this, i, m, ax=ax, ext=ext, wid=wid):
        x = c.view(this)
        if not c.branch(rng(i, ext(x))): return
        if c.null(m): return
        v = c.view(m)
        if c.branch(bor(ne(v.w, wid(x)), ne(v.h, x.d))): return
        if ax == 'x': f = lambda z, y, k: ite(eq(k, i), v.at(z, y), x.at(z, y, k))
        else: f = lambda z, y, k: ite(eq(y, i), v.at(z, k), x.at(z, y, k))
        c.set(this, shp(x), c.arr3(x.w, x.h, f))
for nm, t in (('to_flat_vector', 'Vector<float>'), ('to_flat_pool_vector', 'PoolRealArray'), ('to_flat_std_vector', 'std::vector<float>')):
    @contract(T3 + nm, props=S8)
    def _(c, this, t=t): x = c.view(this); return c.cnew(x.len, x.arr, t)
@contract(T3 + 'duplicate_fast', props=S8)
def _(c, this): x = c.view(this); return c.new('MLPPTensor3', shp(x), x.arr)
@contract(T3 + 'set_from_mlpp_tensor3', props=S8)
def _(c, this, o):
    if c.null(o): return
    x = c.view(o); c.set(this, shp(x), x.arr)
@contract(T3 + 'set_from_mlpp_tensor3r', props=S8)
def _(c, this, o): x = c.view(o); c.set(this, shp(x), x.arr)
@contract(T3 + 'set_from_mlpp_matrix', props=S8)
def _(c, this, o):
    if c.null(o): return
    x = c.view(o); c.set(this, (x.w, x.h, ONE), x.arr)
@contract(T3 + 'set_from_mlpp_matrixr', props=S8)
def _(c, this, o): x = c.view(o); c.set(this, (x.w, x.h, ONE), x.arr)
@contract(T3 + 'is_equal_approx', props=S8)
def _(c, this, o, tol):
    if c.null(o): return FALSE
    if c.same(this, o): return TRUE
    x, y = c.view(this), c.view(o)
    if c.branch(ne3(x, y)): return FALSE
    return eq(FIRST(x.len, lambda k: bnot(approx_eq(x[k], y[k], tol))), x.len)

# ------------------------------------------------------------ from a list of rows or slices
@contract(T3 + 'set_from_mlpp_vectors', props='C08', lists={'p_from': 'uniform'})
def _(c, this, A):
    x = c.lview(A); none = (ZERO, ZERO, ZERO)
    if c.branch(eq(x.n, ZERO)):
        if c.branch(ne(c.view(this).len, ZERO)): c.set(this, none, lambda k: RZERO)
        return
    w = x.at(0).n
    c.set(this, (w, x.n, ONE), c.arr2(w, lambda i, j: x.at(i)[j]))
@contract(T3 + 'set_from_mlpp_matricess', props='C08', lists={'p_from': 'uniform'})
def _(c, this, A):
    x = c.lview(A); none = (ZERO, ZERO, ZERO)
    if c.branch(eq(x.n, ZERO)):
        if c.branch(ne(c.view(this).len, ZERO)): c.set(this, none, lambda k: RZERO)
        return
    v = x.at(0)
    c.set(this, (v.w, v.h, x.n), c.arr3(v.w, v.h, lambda z, i, j: x.at(z).at(i, j)))
