"""MLPPData and MLPPUtilities: data preparation, mini-batches, performance measures (C18), random initialisation (C25)"""
from .common import *
from . import stat
from vf.cpp import qtype, strip_type
FILES = stat.FILES + ["core/data.cpp", "core/utilities.cpp"]
USES = ["vector", "matrix", "lin_alg", "stat"]
D, U = 'MLPPData::', 'MLPPUtilities::'
P, R = 'C18', 'C25'
sqrt_ = f1('sqrt')
Line = stat.Line
def row(x, i): return Line(x.w, lambda k: x.at(i, k))
def col(x, j): return Line(x.h, lambda k: x.at(k, j))
@contract(D + 'feature_scaling', props=P)
def _(c, this, X):
    """every column scaled by its least and greatest value"""
    given(c, X); x = c.view(X)
    return c.mat(x.h, x.w, lambda i, j: rdiv(sub(x.at(i, j), stat.low(col(x, j))), sub(stat.top(col(x, j)), stat.low(col(x, j)))))
@contract(D + 'mean_centering', props=P, opaque=True)
def _(c, this, X):
    given(c, X); x = c.view(X)
    return c.mat(x.h, x.w, lambda i, j: sub(x.at(i, j), stat.value(c, 'meanv', row(x, i))))
@contract(D + 'mean_normalization', props=P, opaque=True)
def _(c, this, X):
    given(c, X); x = c.view(X)
    def centred(i):
        m = stat.value(c, 'meanv', row(x, i)); return Line(x.w, lambda k: sub(x.at(i, k), m))
    return c.mat(x.h, x.w, lambda i, j: rdiv(centred(i)[j], stat.value(c, 'standard_deviationv', centred(i))))
@contract(D + 'one_hot_rep', props=P)
def _(c, this, y, n):
    if c.null(y): return NULLO
    c.require(le(ZERO, n), 'class count'); y = c.view(y)
    return c.mat(y.n, n, lambda i, j: ite(eq(r2i(y[i]), j), RONE, RZERO))
# ---- performance: the share of samples predicted right
def matches(p, y): return approx_eq(app('round', p), y)
def share(n, hit): return rdiv(i2r(SUM(n, lambda k: ite(hit(k), ONE, ZERO))), i2r(n))
def performance(p, y): return share(p.n, lambda k: matches(p[k], y[k]))
@contract(U + 'performance_vec', props=P)
def _(c, this, p, y):
    if c.null(p) or c.null(y): return RZERO
    p, y = c.view(p), c.view(y); c.require(eq(p.n, y.n), 'one prediction per sample')
    return performance(p, y)
def performance_rows(p, y):
    return share(p.h, lambda i: eq(SUM(p.w, lambda j: ite(matches(p.at(i, j), y.at(i, j)), ONE, ZERO)), p.w))
@contract(U + 'performance_mat', props=P)
def _(c, this, p, y):
    """a row counts when all of it is right"""
    if c.null(p) or c.null(y): return RZERO
    p, y = c.view(p), c.view(y); c.require(band(eq(p.h, y.h), eq(p.w, y.w)), 'one prediction per sample')
    c.require(lt(ZERO, p.w), 'outputs given')
    return performance_rows(p, y)
@contract(U + 'performance_pool_int_array_vec', props=P)
def _(c, this, p, y):
    if c.null(y): return RZERO
    n, a = c.cview(p); y = c.view(y); c.require(eq(n, y.n), 'one prediction per sample')
    return share(n, lambda k: eq(i2r(sel(a, k)), app('round', y[k])))
# ---- outcomes of binary predictions
def outcomes(c, p, y):
    n, a = c.cview(p); m, b = c.cview(y); c.require(eq(n, m), 'one prediction per sample')
    hit = lambda k: eq(sel(a, k), sel(b, k)); pos = lambda k: eq(sel(a, k), RONE)
    num_ = lambda f: SUM(n, lambda k: ite(f(k), RONE, RZERO))
    return num_(lambda k: band(hit(k), pos(k))), num_(lambda k: band(bnot(hit(k)), pos(k))), num_(lambda k: band(hit(k), bnot(pos(k)))), num_(lambda k: band(bnot(hit(k)), bnot(pos(k))))
@contract(U + 'TF_PN', props=P)
def _(c, this, p, y): return Struct('T4', {str(i): v for i, v in enumerate(outcomes(c, p, y))})
@contract(U + 'recall', props=P)
def _(c, this, p, y):
    tp, fp, tn, fn = outcomes(c, p, y); return rdiv(tp, add(tp, fn))
@contract(U + 'precision', props=P)
def _(c, this, p, y):
    tp, fp, tn, fn = outcomes(c, p, y); return rdiv(tp, add(tp, fp))
@contract(U + 'accuracy', props=P)
def _(c, this, p, y):
    tp, fp, tn, fn = outcomes(c, p, y); return rdiv(add(tp, tn), add(add(tp, fp), add(fn, tn)))
@contract(U + 'f1_score', props=P)
def _(c, this, p, y):
    tp, fp, tn, fn = outcomes(c, p, y); pr, rc = rdiv(tp, add(tp, fp)), rdiv(tp, add(tp, fn))
    return rdiv(mul(mul(Q(2), pr), rc), add(pr, rc))
@contract(U + 'performance', sig=lambda fn: all(strip_type(qtype(p)).count('vector<') == 1 for p in fn['_params']), props=P)
def _(c, this, p, y):
    n, a = c.cview(p); m, b = c.cview(y); c.require(eq(n, m), 'one prediction per sample')
    return share(n, lambda k: eq(app('round', sel(a, k)), sel(b, k)))
# ---- random initialisation
def widths(n, m=None):
    """kind of distribution, parameters; n inputs, m outputs"""
    both = lambda: add(i2r(n), RONE if m is None else i2r(m))
    s = lambda k, d: sqrt_(rdiv(Q(k), d))
    fn = i2r(n)
    return [('uniform_real', lambda: (RZERO, RONE)), ('normal', lambda: (RZERO, s(2, both()))), ('uniform_real', lambda: (neg(s(6, both())), s(6, both()))),
            ('normal', lambda: (RZERO, s(2, fn))), ('uniform_real', lambda: (neg(s(6, fn)), s(6, fn))),
            ('normal', lambda: (RZERO, s(1, fn))), ('uniform_real', lambda: (neg(s(3, fn)), s(3, fn))),
            ('uniform_real', lambda: (neg(rdiv(RONE, sqrt_(fn))), rdiv(RONE, sqrt_(fn))))]
def draws(c, o, shape, ln, kind, a, b):
    k0 = c.drawn()
    c.set(o, shape, c.arr(lambda k: uf('$draw_' + kind, 'R', add(k0, k), a, b)))
    c.drawn(add(k0, ln))
def weights(c, o, x, n, m, type_):
    for i, (kind, ab) in enumerate(widths(n, m)):
        if c.branch(eq(type_, I(i))):
            draws(c, o, x.shape, x.len, kind, *ab()); return
@contract(U + 'weight_initializationv', props=R, random=True)
def _(c, this, o, t):
    if c.null(o): return
    x = c.view(o); weights(c, o, x, x.n, None, t)
@contract(U + 'weight_initializationm', props=R, random=True)
def _(c, this, o, t):
    if c.null(o): return
    x = c.view(o); weights(c, o, x, x.w, x.h, t)
@contract(U + 'bias_initializationr', props=R, random=True)
def _(c, this): return c.draw('uniform_real', RZERO, RONE)
@contract(U + 'bias_initializationv', props=R, random=True)
def _(c, this, o):
    if c.null(o): return
    x = c.view(o); draws(c, o, x.shape, x.n, 'uniform_real', RZERO, RONE)
# ---- mini-batches: batch i owns the samples i*m .. i*m + m - 1, each with its own label
def batch_rows(c, X, n, m):
    """the list of n matrices of m consecutive rows"""
    return c.list(n, 'MLPPMatrix', lambda i: (X.w, m), lambda i: c.arr2(X.w, lambda j, k: X.at(add(mul(m, i), j), k)))
def batch_cells(c, y, n, m): return c.list(n, 'MLPPVector', lambda i: m, lambda i: lambda j: y[add(mul(m, i), j)])
MV, MM = U + 'CreateMiniBatchMVBatch', U + 'CreateMiniBatchMMBatch'
@contract(U + 'create_mini_batchesm', props=P)
def _(c, X, n):
    given(c, X); x = c.view(X); c.require(le(ONE, n), 'at least one batch')
    return batch_rows(c, x, n, c.quotient(x.h, n))
@contract(U + 'create_mini_batchesmv', props=P)
def _(c, X, Y, n):
    given(c, X, Y); x, y = c.view(X), c.view(Y); c.require(le(ONE, n), 'at least one batch'); c.require(eq(x.h, y.n), 'one label per sample')
    m = c.quotient(x.h, n)
    return c.struct(MV, input_sets=batch_rows(c, x, n, m), output_sets=batch_cells(c, y, n, m))
@contract(U + 'create_mini_batchesmm', props=P)
def _(c, X, Y, n):
    given(c, X, Y); x, y = c.view(X), c.view(Y); c.require(le(ONE, n), 'at least one batch'); c.require(eq(x.h, y.h), 'one label per sample')
    m = c.quotient(x.h, n)
    return c.struct(MM, input_sets=batch_rows(c, x, n, m), output_sets=batch_rows(c, y, n, m))

# ---- train/test split: every sample keeps its own label; the order is a random one
S_ = D + 'SplitComplexData'
def dataset(c, X, Y): return c.struct('MLPPDataComplex', _input=X, _output=Y)
def empty_mat(c): return c.mat(ZERO, ZERO, lambda i, j: RZERO)
def data_pair(c, o):
    given(c, o); X, Y = c.field(o, '_input'), c.field(o, '_output')
    return X, Y
@contract(D + 'train_test_split', props=P, random=True, native=False)
def _(c, this, data, share_):
    def none(): return c.struct(S_, train=dataset(c, empty_mat(c), empty_mat(c)), test=dataset(c, empty_mat(c), empty_mat(c)))
    if c.null(data): return none()
    X, Y = c.field(data, '_input'), c.field(data, '_output')
    if c.null(X) or c.null(Y): return none()
    c.require(band(le(RZERO, share_), le(share_, RONE)), 'a share of the samples')
    X, Y = c.view(X), c.view(Y)
    n = ite(lt(X.h, Y.h), X.h, Y.h); m = r2i(mul(share_, i2r(n))); d = c.drawn(); c.drawn(add(d, ONE))
    pick = lambda k: uf('$shuffle', 'I', d, n, k)
    part = lambda V, k0, cnt: c.mat(cnt, V.w, lambda i, j: V.at(pick(add(k0, i)), j))
    return c.struct(S_, train=dataset(c, part(X, m, sub(n, m)), part(Y, m, sub(n, m))), test=dataset(c, part(X, ZERO, m), part(Y, ZERO, m)))
