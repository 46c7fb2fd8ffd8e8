"""Symbolic program state: environment, objects, heap buffers, path facts; and state merging."""
from .term import *
from . import term as tm

class Unsupported(Exception):
    pass
class Thaw(Unsupported):
    """an element taken from a list of symbolic length is modified: it has to be taken as an element of its own"""
    def __init__(self, ident):
        super().__init__('an element of a list of symbolic length is modified'); self.ident = ident
class Prune(Exception):
    """the current path is infeasible or has faulted"""
    pass
class Unmergeable(Exception):
    pass

class Ptr:
    __slots__ = ('bid', 'off')
    def __init__(self, bid, off=ZERO): self.bid = bid; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and o.bid == self.bid and o.off is self.off
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.bid, self.off.id))
    def __repr__(self): return 'Ptr(%s,%s)' % (self.bid, self.off)
NULLPTR = Ptr(None, ZERO)

class O:
    __slots__ = ('oid',)
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, O) and o.oid == self.oid
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(('O', self.oid))
    def __repr__(self): return 'O(%s)' % (self.oid,)
NULLO = O(None)

class Struct:
    __slots__ = ('name', 'f')
    def __init__(self, name, f): self.name = name; self.f = f
    def __eq__(self, o): return isinstance(o, Struct) and o.name == self.name and o.f == self.f
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __repr__(self): return '%s%r' % (self.name, self.f)
    def with_(self, k, v):
        f = dict(self.f); f[k] = v
        return Struct(self.name, f)

class FnPtr:
    __slots__ = ('name', 'this')
    def __init__(self, name, this=None): self.name = name; self.this = this
    def __eq__(self, o): return isinstance(o, FnPtr) and o.name == self.name
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'FnPtr(%s)' % self.name

class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class Opaque:
    __slots__ = ('what',)
    def __init__(self, what): self.what = what
    def __eq__(self, o): return isinstance(o, Opaque) and o.what == self.what
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.what)
    def __repr__(self): return 'Opaque(%s)' % self.what

class Alias:
    """a C++ reference bound to an lvalue"""
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
    def __eq__(self, o): return isinstance(o, Alias) and o.lv == self.lv
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(('A', str(self.lv)))
    def __repr__(self): return 'Alias(%r)' % (self.lv,)

class Fam:
    """contents of a list of symbolic length, kept as the 1-tuple (Fam,): element k is an object of class cls whose shape and
    cells are terms in k.  The objects are never modified (State.setf/setbuf refuse): a list that hands them out for writing is
    outside what is handled"""
    __slots__ = ('cls', 'k', 'shape', 'arr')
    def __init__(self, cls, k, shape, arr): self.cls = cls; self.k = k; self.shape = tuple(shape); self.arr = arr
    def at(self, i):
        m = {self.k: i}
        return tuple(subst(s, m) for s in self.shape), subst(self.arr, m)
    def map(self, f): return Fam(self.cls, self.k, [f(s) for s in self.shape], f(self.arr))
    def __eq__(self, o): return isinstance(o, Fam) and o.cls == self.cls and o.at(self.k) == (self.shape, self.arr)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.cls)
    def __repr__(self): return 'Fam(%s, %s, %s, %s)' % (self.cls, self.k, self.shape, self.arr)
class Prior:
    """what the earlier iterations of a loop have put into a list"""
    __slots__ = ('bid', 'base', 't')
    def __init__(self, bid, base=None, t=None): self.bid = bid; self.base = base; self.t = t
    def __eq__(self, o): return isinstance(o, Prior) and o.bid == self.bid
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.bid)
    def __repr__(self): return 'Prior(%s)' % self.bid
class _Unset:
    """elements of a list given a symbolic size and not written yet"""
    def __repr__(self): return 'UNSET'
UNSET = _Unset()
def fam(b): return b.arr[0] if len(b.arr) == 1 and isinstance(b.arr[0], Fam) else None
def frozen(i): return isinstance(i, str) and i.startswith('fz')

class Buf:
    """len T, arr T (or tuple of values when sort == 'L'), alive T"""
    __slots__ = ('len', 'arr', 'alive', 'sort')
    def __init__(self, len, arr, alive, sort): self.len = len; self.arr = arr; self.alive = alive; self.sort = sort
    def __repr__(self): return 'Buf(len=%s, %s%s)' % (self.len, self.arr, '' if self.alive is TRUE else ' alive=%s' % self.alive)

class Obj:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
    def __repr__(self): return '%s%r' % (self.cls, self.f)

class State:
    __slots__ = ('env', 'objs', 'bufs', 'br', 'asm', 'ctr', 'wild')
    def __init__(self):
        self.env = {}; self.objs = {}; self.bufs = {}; self.br = (); self.asm = (); self.ctr = 0
        self.wild = {}
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.objs = dict(self.objs); s.bufs = dict(self.bufs)
        s.br = self.br; s.asm = self.asm; s.ctr = self.ctr; s.wild = dict(self.wild)
        return s
    def become(self, o):
        self.env = dict(o.env); self.objs = dict(o.objs); self.bufs = dict(o.bufs)
        self.br = o.br; self.asm = o.asm; self.ctr = o.ctr; self.wild = dict(o.wild)
    @property
    def facts(self):
        return self.br + self.asm
    def new(self, prefix):
        self.ctr += 1
        return '%s#%d' % (prefix, self.ctr)
    def assume(self, *cs):
        for c in cs:
            for x in tm.conjuncts(c):
                if x is FALSE: raise Prune()
                if x is not TRUE and x not in self.asm and x not in self.br:
                    self.asm += (x,)
    def take(self, c):
        """branch fact"""
        for x in tm.conjuncts(c):
            if x is FALSE: raise Prune()
            if x is not TRUE and x not in self.br:
                self.br += (x,)
    # objects
    def getf(self, oid, name):
        return self.objs[oid].f[name]
    def setf(self, oid, name, v):
        if frozen(oid): raise Thaw(oid)
        o = self.objs[oid]
        f = dict(o.f); f[name] = v
        self.objs[oid] = Obj(o.cls, f)
    def newobj(self, cls, fields):
        oid = self.new('o')
        self.objs[oid] = Obj(cls, fields)
        return O(oid)
    def newbuf(self, ln, arr, sort='R'):
        bid = self.new('b')
        self.bufs[bid] = Buf(ln, arr, TRUE, sort)
        return bid
    def setbuf(self, bid, **kw):
        if frozen(bid): raise Thaw(bid)
        b = self.bufs[bid]
        self.bufs[bid] = Buf(kw.get('len', b.len), kw.get('arr', b.arr), kw.get('alive', b.alive), b.sort)
    def sym(self, prefix, sort):
        return tm.var(self.new(prefix), sort)

# ------------------------------------------------------------------ reference counting for exclusivity
def _refs_val(v, kind, ident):
    if kind == 'b':
        if isinstance(v, Ptr) and v.bid == ident: return 1
    else:
        if isinstance(v, O) and v.oid == ident: return 1
    if isinstance(v, Struct): return sum(_refs_val(x, kind, ident) for x in v.f.values())
    if isinstance(v, FnPtr): return _refs_val(v.this, kind, ident)
    if isinstance(v, Alias): return _refs_lv(v.lv, kind, ident)
    return 0
def _refs_lv(lv, kind, ident):
    n = 0
    for x in lv:
        if isinstance(x, tuple): n += _refs_lv(x, kind, ident)
        elif isinstance(x, (Ptr, O)): n += _refs_val(x, kind, ident)
        elif x == ident: n += 1
    return n
def count_refs(s, kind, ident):
    n = 0
    for v in s.env.values(): n += _refs_val(v, kind, ident)
    for o in s.objs.values():
        for v in o.f.values(): n += _refs_val(v, kind, ident)
    for b in s.bufs.values():
        if b.sort == 'L':
            for v in b.arr: n += _refs_val(v, kind, ident)
    return n

def rename_val(v, kind, m):
    if kind == 'b' and isinstance(v, Ptr) and v.bid in m: return Ptr(m[v.bid], v.off)
    if kind == 'o' and isinstance(v, O) and v.oid in m: return O(m[v.oid])
    if isinstance(v, Struct): return Struct(v.name, {k: rename_val(x, kind, m) for k, x in v.f.items()})
    if isinstance(v, FnPtr) and v.this is not None: return FnPtr(v.name, rename_val(v.this, kind, m))
    if isinstance(v, Alias): return Alias(_rename_lv(v.lv, kind, m))
    return v
def _rename_lv(lv, kind, m):
    out = []
    for x in lv:
        if isinstance(x, tuple): out.append(_rename_lv(x, kind, m))
        elif isinstance(x, (Ptr, O)): out.append(rename_val(x, kind, m))
        elif isinstance(x, str) and x in m: out.append(m[x])
        else: out.append(x)
    return tuple(out)
def rename(s, kind, m):
    """rename object or buffer identities in place"""
    if any(frozen(x) for x in m): raise Unsupported('an element of a list of symbolic length changes its identity')
    s.env = {k: rename_val(v, kind, m) for k, v in s.env.items()}
    s.objs = {(m.get(k, k) if kind == 'o' else k): Obj(o.cls, {n: rename_val(v, kind, m) for n, v in o.f.items()}) for k, o in s.objs.items()}
    nb = {}
    for k, b in s.bufs.items():
        k2 = m.get(k, k) if kind == 'b' else k
        if b.sort == 'L': b = Buf(b.len, tuple(rename_val(v, kind, m) for v in b.arr), b.alive, b.sort)
        nb[k2] = b
    s.bufs = nb
    s.wild = {(m.get(k, k) if kind == 'b' else k): v for k, v in s.wild.items()}

def gc(s, roots=()):
    """drop unreachable objects and buffers that are not in roots (roots: oids/bids kept)"""
    seen = set(roots); st = []
    def push(v):
        if isinstance(v, Ptr) and v.bid is not None and v.bid not in seen: seen.add(v.bid); st.append(v.bid)
        elif isinstance(v, O) and v.oid is not None and v.oid not in seen: seen.add(v.oid); st.append(v.oid)
        elif isinstance(v, Struct):
            for x in v.f.values(): push(x)
        elif isinstance(v, FnPtr): push(v.this)
        elif isinstance(v, Alias): pushlv(v.lv)
    def pushlv(lv):
        for x in lv:
            if isinstance(x, tuple): pushlv(x)
            elif isinstance(x, (Ptr, O)): push(x)
            elif isinstance(x, str) and (x in s.objs or x in s.bufs) and x not in seen: seen.add(x); st.append(x)
    for v in s.env.values(): push(v)
    st.extend(roots)
    while st:
        x = st.pop()
        if x in s.objs:
            for v in s.objs[x].f.values(): push(v)
        elif x in s.bufs and s.bufs[x].sort == 'L':
            for v in s.bufs[x].arr: push(v)
    s.objs = {k: v for k, v in s.objs.items() if k in seen}
    s.bufs = {k: v for k, v in s.bufs.items() if k in seen}

# ------------------------------------------------------------------ merging
class Merger:
    def __init__(self, c, a, b, base, pinned):
        self.c = c; self.a = a.copy(); self.b = b.copy(); self.base = base; self.pinned = pinned
        self.ctr = max(a.ctr, b.ctr)
    def val(self, x, y, where):
        c = self.c
        if x is y: return x
        if x is UNDEF or y is UNDEF:
            if isinstance(x, (Ptr, O)) or isinstance(y, (Ptr, O)):
                return UNDEF
            # an uninitialised scalar on one side: any value will do
            return UNDEF if (x is UNDEF and y is UNDEF) else _UndefMerge(c, x, y)
        if isinstance(x, T) and isinstance(y, T):
            if x.sort == 'B' and y.sort != 'B' or y.sort == 'B' and x.sort != 'B':
                raise Unmergeable('sorts')
            return ite(c, x, y)
        if isinstance(x, Fam) and isinstance(y, Fam) and x.cls == y.cls:
            s, a = y.at(x.k)
            return Fam(x.cls, x.k, [ite(c, p, q) for p, q in zip(x.shape, s)], x.arr if x.arr is a else ite(c, x.arr, a))
        if isinstance(x, Struct) and isinstance(y, Struct) and x.name == y.name and x.f.keys() == y.f.keys():
            return Struct(x.name, {k: self.val(x.f[k], y.f[k], where) for k in x.f})
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.bid == y.bid: return Ptr(x.bid, ite(c, x.off, y.off))
            if x.bid is None or y.bid is None:
                raise Unmergeable('null/nonnull pointer')
            return self.ptr_rename(x, y)
        if isinstance(x, O) and isinstance(y, O):
            if x == y: return x
            if x.oid is None or y.oid is None: raise Unmergeable('null/nonnull ref')
            return self.obj_rename(x, y)
        if x == y: return x
        raise Unmergeable('%r vs %r' % (x, y))
    def ptr_rename(self, x, y):
        a, b = self.a, self.b
        if x.bid in self.pinned and y.bid in self.pinned: raise Unmergeable('pinned buffers')
        if count_refs(a, 'b', x.bid) != 1 or count_refs(b, 'b', y.bid) != 1: raise Unmergeable('shared buffer')
        if a.bufs[x.bid].sort != b.bufs[y.bid].sort: raise Unmergeable('buffer sorts')
        self.ctr += 1
        nb = 'b#m%d' % self.ctr
        # x.bid may still exist in b (dead old storage) and vice versa
        ba, bb = a.bufs[x.bid], b.bufs[y.bid]
        for s, bid, bf in ((a, x.bid, ba), (b, y.bid, bb)):
            s.bufs[nb] = bf
            s.bufs[bid] = Buf(ZERO, bf.arr, FALSE, bf.sort)
            if bid in s.wild: s.wild[nb] = s.wild[bid]
            self._redirect(s, bid, nb)
        self.again = True
        return Ptr(nb, ite(self.c, x.off, y.off))
    def _redirect(self, s, bid, nb):
        s.env = {k: rename_val(v, 'b', {bid: nb}) for k, v in s.env.items()}
        s.objs = {k: Obj(o.cls, {n: rename_val(v, 'b', {bid: nb}) for n, v in o.f.items()}) for k, o in s.objs.items()}
    def obj_rename(self, x, y):
        a, b = self.a, self.b
        if x.oid in self.pinned or y.oid in self.pinned: raise Unmergeable('pinned object')
        if count_refs(a, 'o', x.oid) != 1 or count_refs(b, 'o', y.oid) != 1: raise Unmergeable('shared object')
        if a.objs[x.oid].cls != b.objs[y.oid].cls: raise Unmergeable('class')
        self.ctr += 1
        no = 'o#m%d' % self.ctr
        for s, oid in ((a, x.oid), (b, y.oid)):
            rename(s, 'o', {oid: no})
        self.again = True
        return O(no)
    def merge(self):
        for _ in range(60):
            self.again = False
            try:
                r = self._merge()
            except _Restart:
                continue
            if not self.again: return r
        raise Unmergeable('no fixpoint')
    def _merge(self):
        a, b = self.a, self.b
        r = State()
        r.ctr = self.ctr
        for k, x in a.env.items():
            if k in b.env:
                r.env[k] = self.val(x, b.env[k], k)
                if self.again: raise _Restart()
        for oid, x in a.objs.items():
            y = b.objs.get(oid)
            if y is None or y is x: r.objs[oid] = x; continue
            if x.cls != y.cls: raise Unmergeable('class')
            f = {}
            for n in x.f:
                if n not in y.f: continue
                f[n] = self.val(x.f[n], y.f[n], (oid, n))
                if self.again: raise _Restart()
            r.objs[oid] = Obj(x.cls, f)
        for oid, y in b.objs.items():
            if oid not in a.objs: r.objs[oid] = y
        for bid, x in a.bufs.items():
            y = b.bufs.get(bid)
            if y is None or y is x: r.bufs[bid] = x; continue
            if x.sort != y.sort: raise Unmergeable('buffer sort')
            if x.sort == 'L':
                if x.alive is FALSE and y.alive is FALSE: r.bufs[bid] = x; continue
                if len(x.arr) != len(y.arr): raise Unmergeable('list length')
                arr = []
                for p, q in zip(x.arr, y.arr):
                    arr.append(self.val(p, q, bid))
                    if self.again: raise _Restart()
                r.bufs[bid] = Buf(ite(self.c, x.len, y.len), tuple(arr), ite(self.c, x.alive, y.alive), 'L')
                continue
            if x.alive is FALSE and y.alive is FALSE: r.bufs[bid] = x; continue
            r.bufs[bid] = Buf(ite(self.c, x.len, y.len), x.arr if x.arr is y.arr else ite(self.c, x.arr, y.arr), ite(self.c, x.alive, y.alive), x.sort)
        for bid, y in b.bufs.items():
            if bid not in a.bufs: r.bufs[bid] = y
        r.wild = dict(a.wild)
        for k, v in b.wild.items():
            if k in r.wild and r.wild[k] != v: raise Unmergeable('wild')
            r.wild[k] = v
        r.ctr = self.ctr
        return r

class _Restart(Exception): pass

def _UndefMerge(c, x, y):
    # uninitialised on one side: keep it undefined (reading it later is reported)
    return UNDEF

def merge_outcomes(base, outs, pinned, retvals=None):
    """outs: list of states forked from base (exclusive, covering).  Returns merged state or raises Unmergeable.
    retvals (parallel list) are merged through a pseudo variable."""
    nb = len(base.br); na = len(base.asm)
    RK = ('$ret', 0)
    sts = []
    for i, s in enumerate(outs):
        s = s.copy()
        if retvals is not None: s.env[RK] = retvals[i]
        sts.append(s)
    conds = [band(*s.br[nb:]) for s in sts]
    def linear(ix, depth):
        cur = sts[ix[-1]]
        for i in reversed(ix[:-1]):
            cur = Merger(band(*sts[i].br[depth:]), sts[i], cur, base, pinned).merge()
        return cur
    def tree(ix, depth):
        """along the decisions the paths have in common"""
        if len(ix) == 1: return sts[ix[0]]
        while True:
            ls = [sts[i].br[depth] if len(sts[i].br) > depth else None for i in ix]
            if None in ls or any(l is not ls[0] for l in ls): break
            depth += 1
        ds = list(dict.fromkeys(ls))
        if len(ds) != 2 or None in ds or ds[1] is not bnot(ds[0]): return linear(ix, depth)
        L = tree([i for i, l in zip(ix, ls) if l is ds[0]], depth + 1); R = tree([i for i, l in zip(ix, ls) if l is ds[1]], depth + 1)
        return Merger(ds[0], L, R, base, pinned).merge()
    cur = tree(list(range(len(sts))), nb)
    asm = [implies(conds[-1], f) for f in sts[-1].asm[na:]]
    for s, c in zip(sts[:-1], conds[:-1]):
        asm += [implies(c, f) for f in s.asm[na:]]
    common = set(sts[0].asm[na:])
    for s in sts[1:]: common &= set(s.asm[na:])
    cur.br = base.br
    cur.asm = base.asm
    cc = _simplify_or(conds)
    cur.take(cc)
    for s in sts[:1]:
        for f in s.asm[na:]:
            if f in common: cur.assume(f)
    cur.assume(*[f for f in dict.fromkeys(asm)])
    rv = cur.env.pop(RK, None)
    return cur, rv

def _simplify_or(conds):
    """disjunction of path conditions; resolves complementary literals"""
    cs = [frozenset(tm.conjuncts(c)) if c is not TRUE else frozenset() for c in conds]
    ch = True
    while ch:
        ch = False
        n = len(cs)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = cs[i], cs[j]
                da = a - b; db = b - a
                if not da or not db:
                    # subsumption
                    cs[i] = a & b; del cs[j]; ch = True; break
                hit = False
                for p, q, dp, dq in ((i, j, da, db), (j, i, db, da)):
                    if len(dp) != 1: continue
                    x, = dp
                    ng = frozenset(tm.conjuncts(bnot(x)))
                    if ng == dq:            # C & x ; C & !x  -> C
                        cs[i] = a & b; del cs[j]; hit = True; break
                    if ng <= dq:            # C & x ; C & !x & D  -> C & x ; C & D
                        cs[q] = cs[q] - ng; hit = True; break
                if hit: ch = True; break
            if ch: break
    return bor(*[band(*sorted(c, key=lambda t: t.id)) for c in cs])
