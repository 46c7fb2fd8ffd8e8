"""MLPPVector"""
from .common import *

FILES = ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"]
USES = ["matrix"]
V = 'MLPPVector::'

# ------------------------------------------------------------ element-wise families (C01)
def unary(name, f, extra=0):
    @contract(V + name, props='C01 C21')
    def inplace(c, this, *a):
        x = c.view(this); c.set(this, (x.n,), lambda k: f(x[k], *a))
    @contract(V + name + 'n', props='C01 C21')
    def new(c, this, *a):
        x = c.view(this); return c.vec(x.n, lambda k: f(x[k], *a))
    @contract(V + name + 'b', props='C01 C21')
    def into(c, this, src, *a):
        if c.null(src): return
        x = c.view(src); c.set(this, (x.n,), lambda k: f(x[k], *a))

def binary(name, f):
    @contract(V + name, props='C01 C21')
    def inplace(c, this, b):
        if c.null(b): return
        x, y = c.view(this), c.view(b)
        if c.branch(ne(x.n, y.n)): return
        c.set(this, (x.n,), lambda k: f(x[k], y[k]))
    @contract(V + name + 'n', props='C01 C21')
    def new(c, this, b):
        if c.null(b): return NULLO
        x, y = c.view(this), c.view(b)
        if c.branch(ne(x.n, y.n)): return NULLO
        return c.vec(x.n, lambda k: f(x[k], y[k]))
    @contract(V + name + 'b', props='C01 C21')
    def into(c, this, a, b):
        if c.null(a) or c.null(b): return
        x, y = c.view(a), c.view(b)
        if c.branch(ne(x.n, y.n)): return
        c.set(this, (x.n,), lambda k: f(x[k], y[k]))

for nm in ('log', 'log10', 'exp', 'erf', 'sqrt', 'sin', 'cos'): unary(nm, f1(nm))
unary('abs', rabs)
unary('exponentiate', power_)
unary('cbrt', lambda x: power_(x, Q(1, 3)))
binary('add', add); binary('sub', sub); binary('hadamard_product', mul); binary('division_element_wise', rdiv)
binary('max', rmax); binary('min', rmin)

def scalar(name, f):
    @contract(V + name, props='C01 C21')
    def inplace(c, this, s):
        x = c.view(this); c.set(this, (x.n,), lambda k: f(x[k], s))
    @contract(V + name + 'n', props='C01 C21')
    def new(c, this, s):
        x = c.view(this); return c.vec(x.n, lambda k: f(x[k], s))
    @contract(V + name + 'b', props='C01 C21')
    def into(c, this, s, a):
        if c.null(a): return
        x = c.view(a); c.set(this, (x.n,), lambda k: f(x[k], s))
scalar('scalar_multiply', mul); scalar('scalar_add', add)

def const(name, static, f, extra):
    if static:
        @contract(V + name, props='C01 C21')
        def make(c, n, *a):
            c.require(le(ZERO, n), 'size not negative')
            return c.vec(n, lambda k: f(*a))
    else:
        @contract(V + name, props='C01 C21')
        def make(c, this, n, *a):
            c.require(le(ZERO, n), 'size not negative')
            return c.vec(n, lambda k: f(*a))
for pre, st in (('vecn_', False), ('create_vec_', True)):
    const(pre + 'zero', st, lambda: RZERO, 0)
    const(pre + 'one', st, lambda: RONE, 0)
    const(pre + 'full', st, lambda k: i2r(k), 1)

# ------------------------------------------------------------ sequence (C02)
@contract(V + 'get_data', props='C02 C21')
def _(c, this):
    x = c.view(this); return c.cnew(x.n, x.arr, 'PoolRealArray')
@contract(V + 'to_pool_vector', props='C02 C21')
def _(c, this):
    x = c.view(this); return c.cnew(x.n, x.arr, 'PoolRealArray')
@contract(V + 'to_vector', props='C02 C21')
def _(c, this):
    x = c.view(this); return c.cnew(x.n, x.arr)
@contract(V + 'to_std_vector', props='C02 C21')
def _(c, this):
    x = c.view(this); return c.cnew(x.n, x.arr, 'std::vector<float>')

def from_container(name, sig=None):
    @contract(V + name, sig, props='C02 C21')
    def _(c, this, src):
        n, arr = c.cview(src); c.set(this, (n,), arr)
for nm in ('set_data', 'set_from_vector', 'set_from_pool_vector', 'set_from_std_vector'): from_container(nm)

@contract(V + 'push_back', props='C02 C21')
def _(c, this, e):
    x = c.view(this); c.set(this, (add(x.n, ONE),), store(x.arr, x.n, e))

@contract(V + 'append_mlpp_vector', props='C02 C21')
def _(c, this, o):
    if c.null(o): return
    x, y = c.view(this), c.view(o)
    c.set(this, (add(x.n, y.n),), lambda k: ite(lt(k, x.n), x[k], y[sub(k, x.n)]))

def removed(x, i): return lambda k: ite(lt(k, i), x[k], x[add(k, ONE)])
@contract(V + 'remove', props='C02 C21')
def _(c, this, i):
    x = c.view(this)
    if not c.branch(band(le(ZERO, i), lt(i, x.n))): return
    c.set(this, (sub(x.n, ONE),), removed(x, i))
@contract(V + 'remove_unordered', props='C02 C21')
def _(c, this, i):
    x = c.view(this)
    if not c.branch(band(le(ZERO, i), lt(i, x.n))): return
    c.set(this, (sub(x.n, ONE),), lambda k: ite(eq(k, i), x[sub(x.n, ONE)], x[k]))
def find_(x, v, start=ZERO):
    """offset from start of the first match, or x.n - start"""
    return FIRST(sub(x.n, start), lambda k: eq(x[add(start, k)], v))
@contract(V + 'find', props='C02 C21')
def _(c, this, v, start):
    c.require(le(ZERO, start), 'start index not negative')
    x = c.view(this)
    if c.branch(le(x.n, start)): return I(-1)
    f = find_(x, v, start)
    return ite(lt(f, sub(x.n, start)), add(start, f), I(-1))
@contract(V + 'erase', props='C02 C21')
def _(c, this, v):
    x = c.view(this)
    f = find_(x, v)
    if not c.branch(lt(f, x.n)): return
    c.set(this, (sub(x.n, ONE),), removed(x, f))
@contract(V + 'invert', props='C02 C21')
def _(c, this):
    x = c.view(this); c.set(this, (x.n,), lambda k: x[sub(sub(x.n, ONE), k)])
@contract(V + 'resize', props='C02 C21')
def _(c, this, n):
    c.require(le(ZERO, n), 'size not negative')
    x = c.view(this); rest = c.any_arr()
    c.set(this, (n,), lambda k: ite(lt(k, x.n), x[k], sel(rest, k)))
@contract(V + 'clear', props='C02 C21')
def _(c, this): c.set(this, (ZERO,), c.any_arr())
@contract(V + 'reset', props='C02 C21')
def _(c, this): c.set(this, (ZERO,), c.any_arr())
@contract(V + 'empty', props='C02 C21')
def _(c, this): return eq(c.view(this).n, ZERO)
@contract(V + 'size', props='C02 C21')
def _(c, this): return c.view(this).n
@contract(V + 'element_get', props='C02 C21')
def _(c, this, i):
    x = c.view(this)
    return x[i] if c.branch(band(le(ZERO, i), lt(i, x.n))) else RZERO
@contract(V + 'element_set', props='C02 C21')
def _(c, this, i, v):
    x = c.view(this)
    if c.branch(band(le(ZERO, i), lt(i, x.n))): c.set(this, (x.n,), store(x.arr, i, v))
@contract(V + 'fill', props='C02 C21')
def _(c, this, v):
    x = c.view(this); c.set(this, (x.n,), lambda k: v)
def inserted(x, p, v): return lambda k: ite(lt(k, p), x[k], ite(eq(k, p), v, x[sub(k, ONE)]))
@contract(V + 'insert', props='C02 C21')
def _(c, this, p, v):
    x = c.view(this)
    if not c.branch(band(le(ZERO, p), le(p, x.n))): return
    c.set(this, (add(x.n, ONE),), inserted(x, p, v))
@contract(V + 'ordered_insert', props='C02 C21')
def _(c, this, v):
    x = c.view(this)
    f = FIRST(x.n, lambda k: lt(v, x[k]))
    c.set(this, (add(x.n, ONE),), inserted(x, f, v))
@contract(V + 'duplicate_fast', props='C02 C21')
def _(c, this):
    x = c.view(this); return c.vec(x.n, x.arr)
@contract(V + 'set_from_mlpp_vectorr', props='C02 C21')
def _(c, this, o):
    x = c.view(o); c.set(this, (x.n,), x.arr)
@contract(V + 'set_from_mlpp_vector', props='C02 C21')
def _(c, this, o):
    if c.null(o): return
    x = c.view(o); c.set(this, (x.n,), x.arr)

# ------------------------------------------------------------ reductions (C03)
@contract(V + 'is_equal_approx', props='C03 C21')
def _(c, this, o, tol):
    if c.null(o): return FALSE
    if c.same(this, o): return TRUE
    x, y = c.view(this), c.view(o)
    if c.branch(ne(x.n, y.n)): return FALSE
    return eq(FIRST(x.n, lambda k: bnot(approx_eq(x[k], y[k], tol))), x.n)
def reduction(name, f):
    @contract(V + name, props='C03 C21')
    def _(c, this, o):
        if c.null(o): return RZERO
        x, y = c.view(this), c.view(o)
        if c.branch(ne(x.n, y.n)): return RZERO
        return f(x, y)
reduction('dot', lambda x, y: SUM(x.n, lambda k: mul(x[k], y[k])))
def d2(x, y): return SUM(x.n, lambda k: power(sub(x[k], y[k]), 2))
reduction('euclidean_distance', lambda x, y: app('sqrt', d2(x, y)))
reduction('euclidean_distance_squared', d2)
@contract(V + 'norm_2', props='C03 C21')
def _(c, this):
    x = c.view(this); return app('sqrt', SUM(x.n, lambda k: power(x[k], 2)))
@contract(V + 'norm_sq', props='C03 C21')
def _(c, this):
    x = c.view(this); return SUM(x.n, lambda k: power(x[k], 2))
@contract(V + 'sum_elements', props='C03 C21')
def _(c, this):
    x = c.view(this); return SUM(x.n, lambda k: x[k])
def extreme(name, init, better, idx):
    @contract(V + name, props='C03 C21')
    def _(c, this):
        x = c.view(this)
        return FOLD(x.n, [init, I(-1)], lambda k, s: [ite(better(x[k], s[0]), x[k], s[0]), ite(better(x[k], s[0]), k, s[1])], 1 if idx else 0)
gt = lambda a, b: lt(b, a)
extreme('max_element', neg(INF), gt, False); extreme('max_element_index', neg(INF), gt, True)
extreme('min_element', INF, lt, False); extreme('min_element_index', INF, lt, True)

# ------------------------------------------------------------ with matrices (C06)
@contract(V + 'subtract_matrix_rows', props='C06 C21')
def _(c, this, B):
    c.require(TRUE if not c.null(B) else FALSE, 'matrix given')
    x, m = c.view(this), c.view(B)
    if c.branch(ne(m.w, x.n)): return
    c.set(this, (x.n,), lambda j: sub(x[j], SUM(m.h, lambda i: m.at(i, j))))
@contract(V + 'subtract_matrix_rowsn', props='C06 C21')
def _(c, this, B):
    c.require(TRUE if not c.null(B) else FALSE, 'matrix given')
    x, m = c.view(this), c.view(B)
    if c.branch(ne(m.w, x.n)): return c.vec(x.n, x.arr)
    return c.vec(x.n, lambda j: sub(x[j], SUM(m.h, lambda i: m.at(i, j))))
@contract(V + 'subtract_matrix_rowsb', props='C06 C21')
def _(c, this, a, B):
    c.require(TRUE if not c.null(B) and not c.null(a) else FALSE, 'operands given')
    x, m = c.view(a), c.view(B)
    if c.branch(ne(m.w, x.n)): return
    c.set(this, (x.n,), lambda j: sub(x[j], SUM(m.h, lambda i: m.at(i, j))))
@contract(V + 'outer_product', props='C06 C21')
def _(c, this, b):
    c.require(TRUE if not c.null(b) else FALSE, 'operand given')
    x, y = c.view(this), c.view(b)
    return c.mat(x.n, y.n, lambda i, j: mul(x[i], y[j]))
@contract(V + 'diagnm', props='C06 C21')
def _(c, this):
    x = c.view(this)
    return c.mat(x.n, x.n, lambda i, j: ite(eq(i, j), x[i], RZERO))
@contract(V + 'cross', props='C06 C21')
def _(c, this, b):
    c.require(TRUE if not c.null(b) else FALSE, 'operand given')
    x, y = c.view(this), c.view(b)
    def g(v, i): return ite(lt(I(i), v.n), v[i], RZERO)
    def cr(i, j): return sub(mul(g(x, i), g(y, j)), mul(g(x, j), g(y, i)))
    return c.vec(3, lambda k: ite(eq(k, ZERO), cr(1, 2), ite(eq(k, ONE), cr(2, 0), cr(0, 1))))
@contract('MLPPVector::sort', props='C02', native=True)
def _(c, this):
    x = c.view(this); c.set(this, (x.n,), lambda k: order_stat(x.n, k, x.arr))

# ------------------------------------------------------------ lists of vectors, one after another (C02)
def concat(x):
    w = x.uniform()
    if w is None: return concat_any(x)
    w, = w
    return mul(x.n, w), lambda p: x.at(idiv(p, w))[imod(p, w)]
def concat_any(x):
    off = lambda i: FOLD(i, [ZERO], lambda k, s: [add(s[0], x.at(k).n)], 0)
    def cell(p):
        i = FIRST(x.n, lambda k: lt(p, off(add(k, ONE)))); return x.at(i)[sub(p, off(i))]
    return off(x.n), cell
for tag, how, opt in (('', concat, {'lists': {'A': 'uniform'}}), ('#any', concat_any, {'bounded': 'concatenation of vectors of different lengths'})):
    @contract(V + 'flatten_vectors' + tag, props='C02 C06', **opt)
    def _(c, this, A, how=how):
        n, f = how(c.lview(A)); c.set(this, (n,), f)
    @contract(V + 'flatten_vectorsn' + tag, props='C02 C06', **opt)
    def _(c, this, A, how=how): n, f = how(c.lview(A)); return c.vec(n, f)
