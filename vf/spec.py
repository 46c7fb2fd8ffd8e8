"""Contracts: executable specifications over the symbolic state.
The same contract is (a) the postcondition its function is verified against, (b) what callers of the function see,
and (c) the oracle evaluated on concrete inputs when a failure is replayed."""
from .term import *
from . import term as tm
from .state import *

def cond_(c): return c if isinstance(c, T) else (TRUE if c else FALSE)
class Contract:
    def __init__(self, name, fn, sig=None, props=(), byref=False, cases=None, opts=None):
        self.name = name; self.fn = fn; self.sig = sig; self.props = props; self.byref = byref
        self.cases = cases; self.opts = opts or {}
    def __repr__(self): return 'Contract(%s)' % self.name

class View:
    """snapshot of a container object"""
    def __init__(self, c, o):
        self.c = c; self.o = o
        st = c.st
        ob = st.objs[o.oid]
        self.cls = ob.cls
        self.bid = ob.f['_data'].bid
        sz = ob.f['_size']
        self.arr = st.bufs[self.bid].arr if self.bid is not None else tm.var('$none', 'AR')
        if self.cls == 'MLPPVector':
            self.n = sz; self.shape = (sz,)
            self.len = sz
        elif self.cls == 'MLPPMatrix':
            self.w = sz.f['x']; self.h = sz.f['y']; self.shape = (self.w, self.h)
            self.len = mul(self.w, self.h)
        else:
            self.w = sz.f['x']; self.h = sz.f['y']; self.d = sz.f['z']; self.shape = (self.w, self.h, self.d)
            self.len = mul(mul(self.w, self.h), self.d)
    def __getitem__(self, k):
        return sel(self.arr, lift(k, 'I'))
    def at(self, *ix):
        """matrix (row, col); tensor (z, row, col)"""
        ix = [lift(i, 'I') for i in ix]
        if len(ix) == 1: return sel(self.arr, ix[0])
        if len(ix) == 2: return sel(self.arr, add(mul(ix[0], self.w), ix[1]))
        return sel(self.arr, addn([mul(mul(ix[0], self.w), self.h), mul(ix[1], self.w), ix[2]], 'I'))
    def same_shape(self, o):
        return band(*[eq(a, b) for a, b in zip(self.shape, o.shape)])

class ListView:
    """snapshot of a list of containers: n, at(k) -> a FamView"""
    def __init__(self, c, o):
        b = c.st.bufs[c.st.getf(o.oid, 'data').bid]
        self.n = b.len; self.fam = fam(b)
        self.el = [View(c, x) for x in b.arr] if self.fam is None else None
        self.nd = None
    def uniform(self):
        """the shape all elements have, when that is plain to see"""
        if self.fam is not None: return None if any(self.fam.k in x.vs for x in self.fam.shape) else self.fam.shape
        if not self.el: return (ZERO, ZERO, ZERO)[:self.nd or 1]
        return self.el[0].shape if all(v.shape == self.el[0].shape for v in self.el) else None
    def at(self, k):
        k = lift(k, 'I')
        if self.fam is not None: return FamView(*self.fam.at(k))
        el = self.el or []
        if isnum(k) and 0 <= k.args[0] < len(el): v = el[int(k.args[0])]; return FamView(v.shape, v.arr)
        if not el: return FamView((ZERO, ZERO, ZERO), tm.var('$none', 'AR'))
        sh, arr = el[-1].shape, el[-1].arr
        for i in range(len(el) - 2, -1, -1):
            c = eq(k, I(i)); sh = tuple(ite(c, p, q) for p, q in zip(el[i].shape, sh)); arr = ite(c, el[i].arr, arr)
        return FamView(sh, arr)
class FamView:
    def __init__(self, shape, arr):
        self.shape = shape; self.arr = arr
        self.n = self.w = shape[0]; self.h = shape[1] if len(shape) > 1 else None; self.d = shape[2] if len(shape) > 2 else None
        self.len = ONE
        for s in shape: self.len = mul(self.len, s)
    def __getitem__(self, k): return sel(self.arr, lift(k, 'I'))
    at = View.at
class SpecCtx:
    it = None        # number of the step, inside iterate
    def __init__(self, ex, st, callee=False, node=None, con=None):
        self.ex = ex; self.st = st; self.callee = callee; self.node = node; self.con = con
    def run(self, con, this, args):
        self.this = this
        return con.fn(self, *( [this] if this is not None else []), *args)
    # logic
    def branch(self, c):
        if isinstance(c, bool): return c
        return self.ex.branch(self.st, c)
    def require(self, c, what='precondition'):
        if getattr(self, 'strict', False):
            if self.ex.prover.prove(self.st.facts, cond_(c), 4.0) != 'valid': raise Unsupported('requirement inside an iterated step: ' + what)
            return
        if self.callee: self.ex.oblige(self.st, 'require', c, self.node, '%s: %s' % (self.con.name if self.con else '', what))
        else:
            if hasattr(self, 'reqs'): self.reqs.append(implies(band(*self.st.br[self.nb:]), c))
            self.st.assume(c)
        if not self.callee and self.ex.prover.quick(self.st.facts, FALSE): raise Prune()
    def positions(self, x, d):
        """x div d + 1 for 0 <= x, 1 <= d.  While a function is verified the quotient gets a name of its own, m - 1, with
        its definition d*(m-1) <= x < d*m as a fact, so that products with it stay products"""
        if not self.callee and not isnum(d) and not isnum(x) and not getattr(self.ex, 'literal_only', False) and not self.ex.unroll \
                and self.ex.prover.quick(self.st.facts, band(le(ZERO, x), le(ONE, d))):
            m = add(tm.NAMED[(x, d)], ONE) if (x, d) in tm.NAMED else tm.var('$positions%d' % len(tm.NAMED), 'I')
            self.require(band(le(ONE, m), le(mul(d, sub(m, ONE)), x), lt(x, mul(d, m))), 'definition of the number of positions')
            tm.NAMED[(x, d)] = sub(m, ONE)
        return add(idiv(x, d), ONE)
    def quotient(self, x, d):
        """x div d for 0 <= x, 1 <= d; named like positions()"""
        if not self.callee and not isnum(d) and not isnum(x) and not getattr(self.ex, 'literal_only', False) and not self.ex.unroll \
                and self.ex.prover.quick(self.st.facts, band(le(ZERO, x), le(ONE, d))):
            m = tm.NAMED[(x, d)] if (x, d) in tm.NAMED else tm.var('$quotient%d' % len(tm.NAMED), 'I')
            self.require(band(le(ZERO, m), le(mul(d, m), x), lt(x, add(mul(d, m), d))), 'definition of the quotient')
            tm.NAMED[(x, d)] = m
            return m
        return idiv(x, d)
    def null(self, o): return o.oid is None
    def same(self, a, b): return a.oid == b.oid
    # containers
    def view(self, o): return View(self, o)
    def _size(self, cls, shape):
        if cls == 'MLPPVector': return shape[0]
        return Struct('S%d' % len(shape), dict(zip('xyz', shape)))
    def _len(self, shape):
        l = ONE
        for s in shape: l = mul(l, s)
        return l
    def arr(self, f):
        """f(k) -> real term"""
        k = fresh('k', 'I')
        return mk_lam(k, lift(f(k), 'R'))
    def arr2(self, w, f):
        return self.arr(lambda k: f(idiv(k, w), imod(k, w)))
    def arr3(self, w, h, f):
        wh = mul(w, h)
        return self.arr(lambda k: f(idiv(k, wh), idiv(imod(k, wh), w), imod(imod(k, wh), w)))
    def any_arr(self):
        return tm.var(self.st.new('anyc' if self.callee else 'any'), 'AR')
    def any_real(self):
        return tm.var(self.st.new('anyc' if self.callee else 'any'), 'R')
    def set(self, o, shape, arr):
        st = self.st
        shape = tuple(lift(s, 'I') for s in shape)
        ob = st.objs[o.oid]
        old = ob.f['_data']
        if callable(arr): arr = self.arr(arr)
        ln = self._len(shape)
        cur = st.bufs[old.bid] if old.bid is not None else None
        st.setf(o.oid, '_size', self._size(ob.cls, shape))
        if cur is not None and (cur.len is ln or self.ex.prover.quick(st.facts, eq(cur.len, ln)) or
                (any(x.op == 'ite' for x in tm.subterms([ln, cur.len])) and self.ex.prover.prove(st.facts, eq(cur.len, ln), 1.5) == 'valid')):
            st.setbuf(old.bid, arr=arr)
        else:
            if old.bid is not None: st.setbuf(old.bid, alive=FALSE)
            st.setf(o.oid, '_data', Ptr(st.newbuf(ln, arr, 'R')))
    def new(self, cls, shape, arr):
        st = self.st
        shape = tuple(lift(s, 'I') for s in shape)
        if callable(arr): arr = self.arr(arr)
        bid = st.newbuf(self._len(shape), arr, 'R')
        return st.newobj(cls, {'_size': self._size(cls, shape), '_data': Ptr(bid)})
    def vec(self, n, arr): return self.new('MLPPVector', (n,), arr)
    def mat(self, h, w, arr):
        """arr: array term, or f(i, j)"""
        if callable(arr): arr = self.arr2(lift(w, 'I'), arr)
        return self.new('MLPPMatrix', (w, h), arr)
    def ten(self, d, h, w, arr):
        if callable(arr): arr = self.arr3(lift(w, 'I'), lift(h, 'I'), arr)
        return self.new('MLPPTensor3', (w, h, d), arr)
    def list(self, n, cls, shape, arr):
        """list of n objects: element k has shape(k) (a tuple) and cells arr(k) (an array, or f(cell))"""
        k = fresh('k', 'I'); n = lift(n, 'I')
        sh = shape(k); sh = tuple(lift(x, 'I') for x in (sh if isinstance(sh, tuple) else (sh,)))
        a = arr(k); a = self.arr(a) if callable(a) else a
        bid = self.st.newbuf(n, (Fam(cls, k, sh, a),), 'L')
        return self.st.newobj('$Vec', {'data': Ptr(bid), 'type': Opaque('Vector<Ref<%s>>' % cls)})
    def lview(self, o): return ListView(self, o)
    def struct(self, cls, **f): return self.st.newobj(cls, f)
    def empty_vec(self): return self.vec(0, lambda k: RZERO)
    def function(self, name):
        """mangled name of the function with a qualified name"""
        ms = self.ex.prog.byname.get(name, [])
        return sorted(ms)[0] if len(ms) == 1 else '?' + name
    def field(self, o, name): return self.st.getf(o.oid, name)
    def setfield(self, o, name, v): self.st.setf(o.oid, name, v)
    def size2(self, x, y): return Struct('S2', {'x': lift(x, 'I'), 'y': lift(y, 'I')})
    def size3(self, x, y, z): return Struct('S3', {'x': lift(x, 'I'), 'y': lift(y, 'I'), 'z': lift(z, 'I')})
    def draw(self, kind, a, b): return self.ex.draw(self.st, kind, a, b)
    def drawn(self, k=None):
        """position in the random stream"""
        if k is None: return self.st.getf('$rng', 'drawn')
        self.st.setf('$rng', 'drawn', k)
    # iteration
    def iterate(self, count, fields, step, derived=(), derive=None):
        """step(c) applied count times.  fields of the object under contract ('$rng': position in the random stream) hold the
        state; derived fields are a function of it, set by derive(c).  The first application is spelled out, the state after
        the others is a name of its own, it(t), which the loop of the function is proved to follow step by step (loops.py)"""
        ex, st = self.ex, self.st
        if self.callee: raise Unsupported('iteration in the contract of a called function')
        key, args = ex.iter_ctx; n = st.env.get(ITN, 0)
        def nested(tag, f):
            keep = ex.iter_ctx, self.it; ex.iter_ctx = (key + (n, tag), args); st.env[ITN] = 0; self.it = I(k)
            try: f(self)
            finally: ex.iter_ctx, self.it = keep; st.env[ITN] = n
        unroll = 2 if ex.literal_only or ex.unroll else None
        if unroll: self.require(le(count, I(unroll)), 'few iterations')
        for k in range(unroll or 1):
            if self.branch(le(count, I(k))): st.env[ITN] = n + 1; return
            nested('p%d' % k if k else 'p', step)
        st.env[ITN] = n + 1
        if unroll or self.branch(le(count, ONE)): return
        r = Iteration(self, key + (n,), args, count, tuple(fields), step, tuple(derived), derive)
        if not any(x.key == r.key and x.entry.br == r.entry.br for x in ex.iter_recs): ex.iter_recs.append(r)
        st.become(r.head(ex, sub(count, ONE)))
        st.env[ITN] = n + 1
    def formula(self, name, f):
        """an activation formula: its own name (an uninterpreted function) in callers that only pass it on"""
        if not getattr(self.ex, 'opaque', False): return f
        return lambda z, *p: uf('$act_' + name, 'R', z, *p)
    # foreign containers (Vector<T>, PoolRealArray, std::vector<T>)
    def cview(self, o):
        b = self.st.bufs[self.st.getf(o.oid, 'data').bid]
        return b.len, b.arr
    def cnew(self, ln, arr, t='Vector<float>', sort='R'):
        if callable(arr): f = arr; arr = LAM(lambda k: lift(f(k), sort))
        bid = self.st.newbuf(lift(ln, 'I'), arr, sort)
        return self.st.newobj('$Vec', {'data': Ptr(bid), 'type': Opaque(t)})
    def clist(self, els, t):
        return self.st.newobj('$Vec', {'data': Ptr(self.st.newbuf(I(len(els)), tuple(els), 'L')), 'type': Opaque(t)})
    def cset(self, o, ln, arr):
        if callable(arr): arr = self.arr(arr)
        self.st.setbuf(self.st.getf(o.oid, 'data').bid, len=lift(ln, 'I'), arr=arr)

ITN = ('$iteration', 'n')
class Iteration:
    """the state of the object under contract after 1 + t applications of a step"""
    def __init__(self, c, key, args, count, fields, step, derived, derive):
        self.key, self.args, self.count, self.fields, self.step, self.derived, self.derive = key, args, count, fields, step, derived, derive
        self.entry = c.st.copy(); self.con = c.con; self.this = c.this; self.opaque = getattr(c.ex, 'opaque', False); self.prog = c.ex.prog; self.pinned = c.ex.pinned
    def loc(self, st, name):
        """where a state holds the value of a field"""
        if name == '$rng': return ('f', '$rng', 'drawn')
        v = st.getf(self.this.oid, name)
        if isinstance(v, T): return ('f', self.this.oid, name)
        if not isinstance(v, O) or v.oid is None: raise Unsupported('iterated field ' + name)
        return ('b', st.getf(v.oid, '_data').bid, 'arr')
    def head(self, ex, t):
        st = self.entry.copy()
        for f in self.fields:
            nm = '$it_%s_%s' % ('_'.join(map(str, self.key)), f); l = self.loc(st, f)
            if l[0] == 'f': st.setf(l[1], l[2], uf(nm, st.getf(l[1], l[2]).sort, *self.args, t))
            else:
                k = fresh('k', 'I'); st.setbuf(l[1], arr=mk_lam(k, uf(nm, 'R', *self.args, t, k)))
        if self.derive: self.derive(self.ctx(ex, st))
        return st
    def ctx(self, ex, st):
        c = SpecCtx(ex, st, con=self.con); c.this = self.this; c.strict = True; c.nb = len(st.br); return c
    def outcomes(self, prover, t):
        """the states after one more step, and the iterations inside it"""
        from .exec import Executor
        ex = Executor(self.prog, prover, {}, self.pinned); ex.opaque = self.opaque
        ex.iter_ctx = (self.key + ('g',), self.args + (t,))
        st = self.head(ex, t); st.env[ITN] = 0
        st.assume(le(ZERO, t), lt(add(t, ONE), self.count))
        kept = st.copy()
        def run(s):
            c = self.ctx(ex, s); c.it = add(t, ONE)
            self.step(c); return ('return', None)
        outs = ex.explore(st, run)
        mine = set()
        for s0 in (kept,):
            for f in self.fields + self.derived:
                l = self.loc(s0, f); mine.add(l[1])
                if l[0] == 'b': mine.add(s0.getf(self.this.oid, f).oid)
        for s, r in outs:
            for d, k in ((s.objs, kept.objs), (s.bufs, kept.bufs)):
                for i, o in k.items():
                    if i in mine or d.get(i) is o: continue
                    if i == self.this.oid and all(o.f[n] is d[i].f[n] or o.f[n] == d[i].f[n] for n in o.f if n not in self.fields + self.derived): continue
                    if i == '$rng' and '$rng' in self.fields: continue
                    raise Unsupported('a step changes %s, which is no part of the iterated state' % i)
        return outs, ex.iter_recs
