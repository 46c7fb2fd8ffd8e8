"""Nearest neighbours, k-means and outliers (C19)"""
from .common import *
from . import vector, matrix, stat, prep
FILES = prep.FILES + ["modules/%s/%s.cpp" % (m, m) for m in ('knn', 'kmeans', 'outlier_finder')]
USES = ["vector", "matrix", "lin_alg", "stat", "prep"]
P = 'C19'
sqrt_ = f1('sqrt')
def dist(n, x, y): return sqrt_(SUM(n, lambda k: mul(sub(x(k), y(k)), sub(x(k), y(k)))))
def row(X, i): return lambda k: X.at(i, k)
def vec(x): return lambda k: x[k]
LOOP = 'the running choice is kept in locals of a search loop'
# ---- outliers: values whose z-score is larger than the threshold
O_ = 'MLPPOutlierFinder::'
def outlying(c, this, n, at):
    x = stat.Line(n, at); t = c.field(this, '_threshold')
    m, s = stat.value(c, 'meanv', x), stat.value(c, 'standard_deviationv', x)
    return lambda k: lt(t, rabs(rdiv(sub(at(k), m), s)))
@contract(O_ + 'model_test', props=P, opaque=True)
def _(c, this, x):
    if c.null(x): return c.cnew(ZERO, tm.var('$none', 'AR'), 'PoolRealArray')
    x = c.view(x); out = outlying(c, this, x.n, vec(x))
    n, f = filtered(x.n, out, vec(x))
    return c.cnew(n, f, 'PoolRealArray')
def literal(c, n, what='sizes written out'):
    c.require(TRUE if isnum(n) else FALSE, what); return int(n.args[0]) if isnum(n) else 0
@contract(O_ + 'model_set_test', props=P, opaque=True, bounded='conditional append', native=False)
def _(c, this, X):
    if c.null(X): return c.clist([], 'Vector<Vector<float>>')
    X = c.view(X); h = literal(c, X.h); out = []
    for i in range(h):
        n, f = filtered(X.w, outlying(c, this, X.w, row(X, I(i))), row(X, I(i))); out.append(c.cnew(n, f))
    return c.clist(out, 'Vector<Vector<float>>')
@contract(O_ + 'model_set_test_indices', props=P, opaque=True, bounded='conditional append', native=False)
def _(c, this, X):
    if c.null(X): return c.clist([], 'PoolVector2iArray')
    X = c.view(X); h, w = literal(c, X.h), literal(c, X.w)
    return c.clist([Struct('S2', {'x': I(j), 'y': I(i)}) for i in range(h) for j in range(w) if c.branch(outlying(c, this, X.w, row(X, I(i)))(I(j)))], 'PoolVector2iArray')

# ---- nearest neighbours
N_ = 'MLPPKNN::'
def neighbours(c, this, at):
    """the stored samples ranked by distance, ties by position: the first k of them"""
    X = c.field(this, '_input_set'); k = c.field(this, '_k'); given(c, X); X = c.view(X)
    d = lambda i: dist(X.w, at, row(X, i))
    before = lambda s, t: bor(lt(d(s), d(t)), band(eq(d(s), d(t)), lt(s, t)))
    rank = lambda t: count(X.h, lambda s: before(s, t))
    n = ite(lt(k, X.h), ite(lt(k, ZERO), ZERO, k), X.h)
    return n, lambda q: FIRST(X.h, lambda t: eq(rank(t), q))
def vote(c, this, n, at):
    """the label most of the chosen samples have; ties go to the label that comes first among the stored labels"""
    y = c.field(this, '_output_set'); given(c, y); y = c.view(y)
    if not c.branch(lt(ZERO, y.n)): return ZERO
    votes = lambda v: count(n, lambda j: band(lt(at(j), y.n), eq(r2i(y[at(j)]), v)))
    label = lambda i: r2i(y[i])
    return FOLD(y.n, [votes(label(ZERO)), label(ZERO)], lambda t, s: [ite(lt(s[0], votes(label(t))), votes(label(t)), s[0]), ite(lt(s[0], votes(label(t))), label(t), s[1])], 1)
@contract(N_ + 'nearest_neighbors', props=P, bounded=LOOP, native=True)
def _(c, this, x):
    X = c.field(this, '_input_set')
    if c.null(X): return c.cnew(ZERO, tm.var('$none', 'AI'), 'PoolIntArray', 'I')
    given(c, x); x = c.view(x); X = c.view(X); c.require(eq(x.n, X.w), 'features')
    n, f = neighbours(c, this, vec(x))
    return c.cnew(n, f, 'PoolIntArray', 'I')
@contract(N_ + 'determine_class', props=P)
def _(c, this, knn):
    y = c.field(this, '_output_set')
    if c.null(y): return ZERO
    n, a = c.cview(knn); m = c.view(y).n
    c.require(eq(FIRST(n, lambda j: lt(sel(a, j), ZERO)), n), 'positions')
    return vote(c, this, n, lambda j: sel(a, j))
def ready(c, this, w):
    X, y = c.field(this, '_input_set'), c.field(this, '_output_set'); given(c, X, y); X, y = c.view(X), c.view(y)
    c.require(band(eq(w, X.w), eq(X.h, y.n), lt(ZERO, y.n)), 'one label per stored sample')
@contract(N_ + 'model_test', props=P)
def _(c, this, x):
    given(c, x); x = c.view(x); ready(c, this, x.n)
    return vote(c, this, *neighbours(c, this, vec(x)))
@contract(N_ + 'model_set_test', props=P)
def _(c, this, X):
    if c.null(X): return c.cnew(ZERO, tm.var('$none', 'AI'), 'PoolIntArray', 'I')
    X = c.view(X); ready(c, this, X.w)
    return c.cnew(X.h, lambda i: vote(c, this, *neighbours(c, this, row(X, i))), 'PoolIntArray', 'I')
@contract(N_ + 'score', props=P)
def _(c, this):
    X = c.field(this, '_input_set'); given(c, X); X = c.view(X); ready(c, this, X.w); y = c.view(c.field(this, '_output_set'))
    return prep.share(X.h, lambda i: eq(i2r(vote(c, this, *neighbours(c, this, row(X, i)))), app('round', y[i])))

# ---- k-means
K_ = 'MLPPKMeans::'
def nearest(m, d):
    """the first of the m positions with the smallest distance"""
    return FOLD(m, [d(ZERO), ZERO], lambda t, s: [ite(lt(d(t), s[0]), d(t), s[0]), ite(lt(d(t), s[0]), t, s[1])], 1)
class Means:
    def __init__(m, c, this, X=None):
        m.c = c; M, R = c.field(this, '_mu'), c.field(this, '_r'); given(c, M)
        m.M, m.mu = M, c.view(M); m.R = R; m.k = c.field(this, '_k')
        c.require(lt(ZERO, m.mu.h), 'a centroid')
    def fits(m, w): m.c.require(eq(w, m.mu.w), 'as many features as the centroids have')
    def near(m, at): return nearest(m.mu.h, lambda j: dist(m.mu.w, at, row(m.mu, j)))
@contract(K_ + 'model_test', props=P)
def _(c, this, x):
    if c.null(x) or not c.branch(c.field(this, '_initialized')): return NULLO
    x = c.view(x); m = Means(c, this); m.fits(x.n); j = m.near(vec(x))
    return c.vec(m.mu.w, lambda k: m.mu.at(j, k))
@contract(K_ + 'model_set_test', props=P)
def _(c, this, X):
    if c.null(X) or not c.branch(c.field(this, '_initialized')): return NULLO
    X = c.view(X); m = Means(c, this); m.fits(X.w)
    return c.mat(X.h, m.mu.w, lambda i, k: m.mu.at(m.near(row(X, i)), k))
def assign(c, this):
    X = c.field(this, '_input_set'); given(c, X); X = c.view(X); m = Means(c, this); m.fits(X.w); given(c, m.R)
    c.require(eq(m.k, m.mu.h), 'one centroid per cluster')
    c.set(m.R, (m.k, X.h), c.arr2(m.k, lambda i, j: ite(eq(j, m.near(row(X, i))), RONE, RZERO)))
@contract(K_ + '_evaluate', props=P)
def _(c, this):
    if not c.branch(c.field(this, '_initialized')): return
    assign(c, this)
class Clusters:
    """samples, memberships and centroids that belong together"""
    def __init__(m, c, this):
        X, R, M = c.field(this, '_input_set'), c.field(this, '_r'), c.field(this, '_mu'); given(c, X, R, M)
        m.M = M; m.X, m.r, m.mu = c.view(X), c.view(R), c.view(M)
        c.require(band(eq(m.X.w, m.mu.w), eq(m.r.h, m.X.h), eq(m.r.w, m.mu.h)), 'memberships of every sample in every cluster')
def move(c, this):
    m = Clusters(c, this)
    den = lambda i: SUM(m.r.h, lambda j: m.r.at(j, i))
    c.set(m.M, (m.mu.w, m.mu.h), c.arr2(m.mu.w, lambda i, k: mul(rdiv(RONE, den(i)), SUM(m.r.h, lambda j: mul(m.r.at(j, i), m.X.at(j, k))))))
contract(K_ + '_compute_mu', props=P)(move)
def inertia(c, this):
    m = Clusters(c, this)
    return SUM(m.r.h, lambda i: SUM(m.r.w, lambda j: mul(m.r.at(i, j), SUM(m.X.w, lambda k: power(sub(m.X.at(i, k), m.mu.at(j, k)), 2)))))
for nm in ('_cost', 'score'):
    @contract(K_ + nm, props=P)
    def _(c, this):
        if not c.branch(c.field(this, '_initialized')): return RZERO
        return inertia(c, this)
@contract(K_ + 'train', props=P)
def _(c, this, epochs, ui):
    """every epoch moves the centroids to the means of their samples, then reassigns every sample"""
    c.require(bnot(ui), 'no console output')
    if c.null(c.field(this, '_input_set')): return
    c.require(c.field(this, '_initialized'), 'initial centroids')
    assign(c, this)
    def epoch(c):
        move(c, this); assign(c, this)
    c.iterate(ite(le(ONE, epochs), epochs, ONE), ('_mu', '_r'), epoch)
