"""Symbolic execution of clang ASTs of the real sources; calls go through contracts where one exists."""
from .term import *
from . import term as tm
from .state import *
from .state import merge_outcomes, gc
from .cpp import qtype, strip_type, srcline
from . import cpp
import struct, math, re
import time

INT_T = {'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'uint8_t', 'unsigned char', 'char', 'short', 'unsigned short',
         'long long', 'unsigned long long', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'signed char', 'char32_t', 'std::size_t', 'uint'}
REAL_T = {'float', 'double', 'real_t', 'long double'}
STRUCTS = {'Vector2i': ('x', 'y'), 'Size2i': ('x', 'y'), 'Point2i': ('x', 'y'), 'Vector3i': ('x', 'y', 'z'), 'Size3i': ('x', 'y', 'z')}
RSTRUCTS = {'Vector2': ('x', 'y'), 'Size2': ('x', 'y'), 'Vector3': ('x', 'y', 'z'), 'Size3': ('x', 'y', 'z')}
FIELD_ALIAS = {'width': 'x', 'height': 'y', 'depth': 'z'}
CONTAINERS = ('Vector<', 'PoolVector<', 'LocalVector<', 'std::vector<', 'PoolRealArray', 'PoolIntArray', 'PoolVector2iArray', 'Array')
MAPS = ('HashMap<', 'OGHashMap<', 'RBMap<', 'std::map<', 'std::unordered_map<')
UNBOUNDED = tm.var('$unbounded', 'I')       # length of a buffer that stands for a finite map: every key is an index
CLS3 = ('MLPPVector', 'MLPPMatrix', 'MLPPTensor3')
RANDOM_T = ('std::random_device', 'std::default_random_engine', 'std::linear_congruential_engine', 'std::minstd', 'std::mt19937', 'std::mersenne_twister_engine')
OPAQUE_T = ('String', 'StringName', 'Variant', 'Array', 'Dictionary', 'RLogger', 'RandomPCG', 'Object', 'Reference', 'Resource', 'Variant::Type')
MATH1 = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'erf', 'log10', 'log2', 'cbrt', 'floor', 'ceil', 'round', 'log1p', 'expf', 'logf', 'sqrtf'}
MAX_UNROLL = 48
MAX_PATHS = 220

def sort_of(t):
    t = strip_type(t)
    if t in INT_T: return 'I'
    if t in REAL_T: return 'R'
    if t == 'bool': return 'B'
    return None

class Ctx:
    __slots__ = ('trace', 'pos', 'work', 'cache', 'seq')
    def __init__(self, trace, work, cache):
        self.trace = list(trace); self.pos = 0; self.work = work; self.cache = cache; self.seq = 0

class Oblig:
    __slots__ = ('kind', 'where', 'facts', 'goal', 'what')
    def __init__(self, kind, where, facts, goal, what=''):
        self.kind = kind; self.where = where; self.facts = facts; self.goal = goal; self.what = what
    def __repr__(self): return 'Oblig(%s %s %s |- %s)' % (self.kind, self.where, self.what, show(self.goal))

class Closure:
    def __init__(self, node, frame): self.node = node; self.frame = frame
GLOBAL_CONST = {}

class Executor:
    def __init__(self, prog, prover, contracts=None, pinned=(), deadline=None, literal_only=False):
        self.prog = prog; self.prover = prover
        self.contracts = contracts or {}
        self.pinned = set(pinned)
        self.stack = []
        self.tus = []
        self.frames = []
        self.calls = []
        self.obls = []
        self.discharged = 0
        self.quiet = 0
        self.deadline = deadline
        self.used_contracts = {}
        self.inlined = {}
        self.retref = [False]
        self.thaw = set(); self.fzsite = {}
        self.literal_only = literal_only      # concrete/bounded mode: unroll everything
        self.loop_notes = []; self.loop_guess = {}; self.loop_lists = {}; self.loop_tried = {}
        self.declname = {}; self.invariants = ()
        self.frame_ctr = 0
        self.cur = None
        self.helpers = {}
        self.asm_notes = set()
        self.recursing = None
        self.iter_ctx = ((), ()); self.iter_recs = []; self.unroll = False

    # ------------------------------------------------------------- exploration
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')

    def explore(self, st, fn):
        work = [[]]; outs = []; cache = {}
        n = 0
        while work:
            self.tick()
            trace = work.pop()
            n += 1
            if n > MAX_PATHS: raise Unsupported('too many paths')
            s = st.copy()
            self.stack.append(Ctx(trace, work, cache))
            fd = len(self.frames)
            try:
                r = fn(s)
                outs.append((s, r))
            except Prune:
                pass
            finally:
                self.stack.pop()
                del self.frames[fd:]
        return outs

    def choice(self, n):
        ctx = self.stack[-1]
        if ctx.pos < len(ctx.trace):
            k = ctx.trace[ctx.pos]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                ctx.work.append(ctx.trace[:ctx.pos] + [j])
            ctx.trace.append(0)
        ctx.pos += 1
        return k

    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.br or c in st.asm: return True
        nc = bnot(c)
        if nc in st.br or nc in st.asm: return False
        if self.prover.quick(st.facts, c): return True
        if self.prover.quick(st.facts, nc): return False
        return None

    def branch(self, st, c):
        d = self.decide(st, c)
        if d is not None:
            return d
        if self.choice(2) == 0:
            st.take(c); return True
        st.take(bnot(c)); return False

    def sub(self, st, fn, merge=True):
        """run fn in a nested exploration from st, merge what can be merged, continue with one outcome"""
        ctx = self.stack[-1]
        key = (tuple(ctx.trace[:ctx.pos]), ctx.seq)
        ctx.seq += 1
        outs = ctx.cache.get(key)
        if outs is None:
            outs = self.explore(st, fn)
            outs = self.merge_list(st, outs)
            ctx.cache[key] = outs
        if not outs: raise Prune()
        k = 0 if len(outs) == 1 else self.choice(len(outs))
        s, r = outs[k]
        st.become(s)
        return r

    def merge_list(self, base, outs):
        """merge exclusive outcomes of the same kind"""
        groups = {}
        for s, r in outs:
            k = None if r is None else (r[0] if isinstance(r, tuple) else '$v')
            groups.setdefault(k, []).append((s, r))
        res = []
        for k, g in groups.items():
            if len(g) == 1: res.append(g[0]); continue
            res.extend(self.merge_group(base, k, g))
        return res

    def merge_group(self, base, k, g):
        hasval = k in ('return', '$v')
        def rv(r):
            if k == 'return': return r[1]
            return r
        try:
            s, v = merge_outcomes(base, [s for s, r in g], self.pinned, [rv(r) for s, r in g] if hasval else None)
            return [(s, ('return', v) if k == 'return' else (v if k == '$v' else g[0][1]))]
        except Unmergeable as e:
            pass
        if len(g) == 2: return g
        # greedy pairwise merging into few representatives
        reps = []
        for s, r in g:
            done = False
            for i, (bucket) in enumerate(reps):
                try:
                    merge_outcomes(base, [x for x, _ in bucket] + [s], self.pinned, [rv(q) for _, q in bucket] + [rv(r)] if hasval else None)
                    bucket.append((s, r)); done = True; break
                except Unmergeable:
                    continue
            if not done: reps.append([(s, r)])
        out = []
        for b in reps:
            if len(b) == 1: out.append(b[0]); continue
            s, v = merge_outcomes(base, [x for x, _ in b], self.pinned, [rv(q) for _, q in b] if hasval else None)
            out.append((s, ('return', v) if k == 'return' else (v if k == '$v' else b[0][1])))
        return out

    # ------------------------------------------------------------- obligations
    def oblige(self, st, kind, goal, node=None, what=''):
        """record that goal holds here; afterwards it is assumed"""
        if goal is TRUE:
            if not self.quiet: self.discharged += 1
            return
        d = None
        if self.prover.quick(st.facts, goal):
            if not self.quiet: self.discharged += 1
            return
        if goal is not FALSE and self.prover.quick(st.facts, bnot(goal)): d = False
        if goal is FALSE: d = False
        if not self.quiet:
            self.obls.append(Oblig(kind, self.where(node), st.facts, goal, what))
        if d is False:
            raise Prune()
        st.assume(goal)

    def where(self, node):
        l = None
        if node is not None: l = srcline(node)
        f = self.calls[-1] if self.calls else '?'
        return '%s:%s' % (f, l if l else '?')

    # ------------------------------------------------------------- lvalues
    def read(self, st, lv, node=None):
        k = lv[0]
        if k == 'var':
            v = st.env.get(lv[1], UNDEF)
            if isinstance(v, Alias): return self.read(st, v.lv, node)
            return v
        if k == 'field':
            f = st.objs[lv[1]].f
            if lv[2] not in f: raise Unsupported('field %s of %s' % (lv[2], st.objs[lv[1]].cls))
            return f[lv[2]]
        if k == 'elem':
            return self.read_elem(st, lv[1], node)
        if k == 'sub':
            v = self.read(st, lv[1], node)
            if isinstance(v, Struct): return v.f[lv[2]]
            if v is UNDEF: return UNDEF
            raise Unsupported('subfield of %r' % (v,))
        if k == 'val': return lv[1]
        raise Unsupported('read %r' % (lv,))

    def write(self, st, lv, v, node=None):
        k = lv[0]
        if k == 'var':
            o = st.env.get(lv[1], UNDEF)
            if isinstance(o, Alias): return self.write(st, o.lv, v, node)
            st.env[lv[1]] = v; return
        if k == 'field':
            st.setf(lv[1], lv[2], v); return
        if k == 'elem':
            return self.write_elem(st, lv[1], v, node)
        if k == 'sub':
            s = self.read(st, lv[1], node)
            if not isinstance(s, Struct): raise Unsupported('subfield write')
            return self.write(st, lv[1], s.with_(lv[2], v), node)
        raise Unsupported('write to temporary')

    def check_access(self, st, p, node, what):
        if p is NULLPTR or p.bid is None:
            self.oblige(st, 'null', FALSE, node, what + ' through a null pointer')
            raise Prune()
        b = st.bufs.get(p.bid)
        if b is None: raise Unsupported('dangling buffer')
        if b.alive is not TRUE:
            self.oblige(st, 'released', b.alive, node, what + ' after release')
        if b.len is UNBOUNDED: return b
        self.oblige(st, 'bounds', band(le(ZERO, p.off), lt(p.off, b.len)), node, what + ' inside the storage')
        return b

    def read_elem(self, st, p, node):
        b = self.check_access(st, p, node, 'read')
        if b.sort == 'L':
            f = fam(b)
            if f is not None: return self.fam_elem(st, f, p, node)
            if b.arr and isinstance(b.arr[0], Prior):
                if len(b.arr) == 2 and isinstance(b.arr[1], Struct) and b.arr[1].f['i'] is p.off: return b.arr[1].f['o']
                if len(b.arr) == 1 and b.arr[0].base is not None:
                    self.oblige(st, 'order', le(b.arr[0].t, p.off), node, 'the element read has not been replaced yet')
                    return self.fam_elem(st, b.arr[0].base, p, node)     # not reached yet
                raise Unsupported('element of a list under construction')
            i = self.lit(st, p.off)
            if i is None: raise Unsupported('symbolic index into a list of references')
            return b.arr[i]
        return sel(b.arr, p.off)

    def write_elem(self, st, p, v, node):
        b = self.check_access(st, p, node, 'write')
        if b.sort == 'L':
            if self.quiet and len(b.arr) == 1 and (b.arr[0] is UNSET or isinstance(b.arr[0], Fam)):      # a loop looks for what it changes
                st.setbuf(p.bid, arr=(Prior(p.bid), Struct('$W', {'i': p.off, 'o': v}))); return
            if len(b.arr) == 1 and isinstance(b.arr[0], Prior):
                st.setbuf(p.bid, arr=b.arr + (Struct('$W', {'i': p.off, 'o': v}),)); return
            i = self.lit(st, p.off)
            if i is None: raise Unsupported('symbolic index into a list of references')
            if fam(b) is not None or b.arr and (b.arr[0] is UNSET or isinstance(b.arr[0], Prior)): raise Unsupported('write to a list of symbolic length')
            a = list(b.arr); a[i] = v
            st.setbuf(p.bid, arr=tuple(a)); return
        v = self.num(st, v, b.sort, node)
        st.setbuf(p.bid, arr=store(b.arr, p.off, v))

    def fam_elem(self, st, f, p, node):
        """an element of a list of symbolic length"""
        shape, arr = f.at(p.off)
        site = (self.tu.path if hasattr(self.tu, 'path') else '', (node or {}).get('id'), self.where(node)) if node else None
        ln = ONE
        for s in shape: st.assume(le(ZERO, s)); ln = mul(ln, s)
        thaw = site in self.thaw
        if thaw:        # the caller goes on to modify it: the element becomes an object of its own
            if p.bid in self.pinned or not p.bid.startswith('b#'): raise Unsupported('an element of a list given by the caller is modified')
            for b2, x in st.bufs.items():
                if b2 != p.bid and x.sort == 'L' and fam(x) is not None and fam(x) == f: raise Unsupported('elements shared between lists')
            for v in list(st.env.values()) + [v for o in st.objs.values() for v in o.f.values()]:
                if isinstance(v, O) and frozen(v.oid): raise Unsupported('an element of a list known elsewhere is modified')
        bid = st.new('b' if thaw else 'fzb'); st.bufs[bid] = Buf(ln, arr, TRUE, 'R')
        oid = st.new('o' if thaw else 'fzo')
        self.fzsite[oid] = self.fzsite[bid] = site
        st.objs[oid] = Obj(f.cls, {'_size': shape[0] if len(shape) == 1 else Struct('S%d' % len(shape), dict(zip('xyz', shape))), '_data': Ptr(bid)})
        if thaw: self.write_elem(st, p, O(oid), node)
        return O(oid)

    def lit(self, st, t):
        if t.op == 'num': return int(t.args[0])
        return None

    def num(self, st, v, sort, node=None):
        """coerce a value to a term of the sort"""
        if v is UNDEF:
            if not self.quiet:
                self.obls.append(Oblig('uninit', self.where(node), st.facts, FALSE, 'use of an uninitialised value'))
            return st.sym('undef', sort)
        if not isinstance(v, T): raise Unsupported('expected a number, got %r' % (v,))
        if v.sort == sort: return v
        if sort == 'R':
            if v.sort == 'I': return i2r(v)
            return ite(v, RONE, RZERO)
        if sort == 'I':
            if v.sort == 'R': return r2i(v)
            return ite(v, ONE, ZERO)
        if sort == 'B':
            return ne(v, num(0, v.sort))
        raise Unsupported('coerce')

    # ------------------------------------------------------------- types
    def default_value(self, st, t):
        """value of a default-initialised variable of type t"""
        t = strip_type(t)
        if t.endswith('*'): return UNDEF
        if sort_of(t): return UNDEF
        if t.startswith('Ref<'): return NULLO
        if t in STRUCTS: return Struct('S%d' % len(STRUCTS[t]), {f: ZERO for f in STRUCTS[t]})
        if t.startswith(CONTAINERS): return self.new_container(st, t)
        if t.startswith(MAPS): return self.new_map(st, t)
        if t.startswith(OPAQUE_T): return Opaque(t)
        if t in self.prog.classes: return None
        return UNDEF

    def elem_sort(self, t):
        t = strip_type(t)
        if t.startswith('PoolRealArray'): return 'R'
        if t.startswith('PoolIntArray') or t == 'Array': return 'I'       # an Array is followed only while it holds integers
        if t.startswith('PoolVector2iArray'): return 'L'
        a = t[t.index('<') + 1:t.rindex('>')]
        if a.startswith('std::allocator'): return 'L'
        if ',' in a and not a.startswith(('Ref', 'Vector', 'std::')): a = a.split(',')[0]
        a = a.strip()
        if a in REAL_T: return 'R'
        if a in INT_T: return 'I'
        return 'L'
    def elem_type(self, t):
        t = strip_type(t)
        if t.startswith('PoolVector2iArray'): return 'Vector2i'
        a = t[t.index('<') + 1:t.rindex('>')]
        return a.strip()

    def new_map(self, st, t):
        """a map is two arrays over all keys: the values (absent ones default-constructed) and whether the key is there"""
        a = [x.strip() for x in strip_type(t)[strip_type(t).index('<') + 1:].split(',')]
        ks, vs = sort_of(a[0]), sort_of(a[1].rstrip('> '))
        if ks not in ('I', 'R') or vs not in ('I', 'R', 'B'): raise Unsupported('map ' + t)
        vs = 'I' if vs == 'B' else vs
        if ks == 'R' and not self.literal_only: raise Unsupported('map from real numbers')
        v = st.newbuf(UNBOUNDED, LAM(lambda k: num(0, vs)), vs); h = st.newbuf(UNBOUNDED, LAM(lambda k: ZERO), 'I')
        return st.newobj('$Map', {'data': Ptr(v), 'has': Ptr(h), 'ks': Opaque(ks)})
    def map_at(self, st, m, key, n):
        k = self.num(st, key, st.getf(m.oid, 'ks').what, n)
        h = st.getf(m.oid, 'has')
        self.write_elem(st, Ptr(h.bid, k), ONE, n)
        return ('elem', Ptr(st.getf(m.oid, 'data').bid, k))
    def map_method(self, st, n, c, base, bt, name, argn):
        m = self.read(st, self.lvalue(st, base), n) if not c.get('isArrow') else self.eval(st, base)
        if not isinstance(m, O) or m.oid is None: raise Unsupported('map %r' % (m,))
        ks = st.getf(m.oid, 'ks').what; h = st.getf(m.oid, 'has')
        argn = [a for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
        if name in ('set', 'insert') and len(argn) == 2:
            k = self.eval(st, argn[0]); v = self.eval(st, argn[1])
            self.write(st, self.map_at(st, m, k, n), v, n); return None
        if name in ('has', 'contains', 'count'):
            k = self.num(st, self.eval(st, argn[0]), ks, n)
            return eq(self.read_elem(st, Ptr(h.bid, k), n), ONE)
        if name in ('get', 'at'):
            k = self.num(st, self.eval(st, argn[0]), ks, n)
            self.oblige(st, 'bounds', eq(self.read_elem(st, Ptr(h.bid, k), n), ONE), n, 'key in the map')
            return self.read_elem(st, Ptr(st.getf(m.oid, 'data').bid, k), n)
        if name == 'erase':
            k = self.num(st, self.eval(st, argn[0]), ks, n); d = st.getf(m.oid, 'data').bid
            b = st.bufs[d]; was = eq(self.read_elem(st, Ptr(h.bid, k), n), ONE)
            self.write_elem(st, Ptr(h.bid, k), ZERO, n); self.write_elem(st, Ptr(d, k), num(0, b.sort), n)
            return was
        if name == 'clear':
            d = st.getf(m.oid, 'data').bid; vs = st.bufs[d].sort
            st.setbuf(d, arr=LAM(lambda k: num(0, vs))); st.setbuf(h.bid, arr=LAM(lambda k: ZERO)); return None
        raise Unsupported('map method ' + name)

    def new_container(self, st, t, ln=None):
        s = self.elem_sort(t)
        if s == 'L': bid = st.newbuf(ZERO, (), 'L')
        else:
            bid = st.newbuf(ZERO, tm.var('$none', 'A' + s), s)
        return st.newobj('$Vec', {'data': Ptr(bid), 'type': Opaque(strip_type(t))})

    def copy_value(self, st, v):
        """copy construction of an embedded value"""
        if isinstance(v, O) and v.oid is not None and st.objs[v.oid].cls == '$Vec':
            b = st.bufs[st.getf(v.oid, 'data').bid]
            bid = st.new('b'); st.bufs[bid] = Buf(b.len, b.arr, TRUE, b.sort)
            return st.newobj('$Vec', {'data': Ptr(bid), 'type': st.getf(v.oid, 'type')})
        return v

    def class_fields(self, cls):
        info = self.prog.classes.get(cls)
        if info is None: return []
        out = []
        for b in info['bases']:
            if b in self.prog.classes: out += self.class_fields(b)
        return out + info['fields']

    def construct(self, st, cls, ctor_mangled, args, node=None):
        f = {}
        for name, t, init in self.class_fields(cls):
            qt = t.get('desugaredQualType', t['qualType'])
            v = self.default_value(st, qt)
            if v is None: v = self.construct(st, strip_type(qt), None, [])
            if init:
                try: v = self.eval(st, init[0])
                except Unsupported: v = UNDEF
            f[name] = v
        o = st.newobj(cls, f)
        if ctor_mangled and ctor_mangled in self.prog.funcs:
            self.call_function(st, ctor_mangled, o, args, node)
        elif ctor_mangled is None:
            m = self.default_ctor(cls)
            if m: self.call_function(st, m, o, [], node)
        return o

    def default_ctor(self, cls):
        for m in self.prog.byname.get('%s::%s' % (cls, cls.split('::')[-1]), []):
            if not self.prog.funcs[m][1]['_params']: return m
        return None

    # ------------------------------------------------------------- calls
    def call_function(self, st, mn, this, args, node=None):
        """args: list of values / Alias; returns a value"""
        self.tick()
        tu, fn = self.prog.funcs[mn] if mn in self.prog.funcs else (None, None)
        name = self.fname(mn)
        con = self.contracts.get(mn)
        if con is not None:
            return self.apply_contract(st, con, mn, this, args, node)
        if fn is None: raise Unsupported('no body for %s' % name)
        if self.calls.count(name) >= 1 and len(self.calls) > 12: raise Unsupported('recursion in %s' % name)
        if len(self.calls) > 40: raise Unsupported('call depth')
        self.inlined[mn] = name
        def run(s):
            return self.run_body(s, tu, fn, name, this, args)
        r = self.sub(st, run)
        return r[1] if isinstance(r, tuple) else None

    def apply_contract(self, st, con, mn, this, args, node):
        self.used_contracts[mn] = con.name
        def run(s):
            from .spec import SpecCtx
            a = [self.read(s, x.lv) if isinstance(x, Alias) and not con.byref else x for x in args]
            c = SpecCtx(self, s, callee=True, node=node, con=con)
            return ('return', c.run(con, this, a))
        self.calls.append(con.name)
        try:
            r = self.sub(st, run)
        finally:
            self.calls.pop()
        return r[1]

    def fname(self, mn):
        p = self.prog.funcs.get(mn) or self.prog.protos.get(mn)
        if not p: return mn
        d = p[1]
        return (d['_cls'] + '::' if d.get('_cls') else '') + d['name']

    def run_body(self, st, tu, fn, name, this, args):
        fid = st.new('f')
        self.frames.append((fid, this))
        self.tus.append(tu)
        self.calls.append(name)
        self.retref.append(re.match(r'(real_t|float|double|int) ?&\(|(real_t|float|double|int) ?& ?\(', qtype(fn)) is not None)
        try:
            params = fn['_params']
            for i, p in enumerate(params):
                t = qtype(p)
                if i < len(args): v = args[i]
                else: raise Unsupported('missing argument')
                st.env[(fid, p['id'])] = v; self.declname[p['id']] = p.get('name')
            for c in fn.get('inner', []):
                if c['kind'] == 'CXXCtorInitializer': self.ctor_init(st, c, this)
            body = [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][-1]
            r = self.exec_block(st, body.get('inner', []))
            if r is not None and r[0] == 'return': v = r[1]
            else: v = None
            for k in [k for k in st.env if k[0] == fid]: del st.env[k]
            return ('return', v)
        finally:
            self.frames.pop(); self.tus.pop(); self.calls.pop(); self.retref.pop()

    def ctor_init(self, st, c, this):
        ai = c.get('anyInit')
        if ai and ai.get('kind') == 'FieldDecl':
            inner = c.get('inner', [])
            if inner:
                st.setf(this.oid, ai['name'], self.copy_value(st, self.eval(st, inner[0])))

    @property
    def frame(self): return self.frames[-1][0]
    @property
    def this(self): return self.frames[-1][1]
    @property
    def tu(self): return self.tus[-1]

    # ------------------------------------------------------------- statements
    def exec_block(self, st, stmts):
        keys = []
        for s in stmts:
            if s.get('kind') == 'DeclStmt':
                keys += [(self.frame, c['id']) for c in s.get('inner', []) if c.get('kind') == 'VarDecl']
            r = self.exec_stmt(st, s)
            if r is not None:
                if r[0] != 'return':
                    for k in keys: st.env.pop(k, None)
                return r
        for k in keys: st.env.pop(k, None)
        return None

    def exec_stmt(self, st, n):
        self.tick()
        k = n.get('kind')
        if k is None or k == 'NullStmt': return None
        if k == 'CompoundStmt': return self.exec_block(st, n.get('inner', []))
        if k == 'DeclStmt':
            for d in n.get('inner', []):
                if d['kind'] == 'VarDecl': self.decl(st, d)
            return None
        if k == 'ReturnStmt':
            inner = n.get('inner', [])
            if not inner: return ('return', None)
            if self.retref[-1]:
                lv = self.lvalue(st, inner[0])
                if lv[0] == 'elem': return ('return', Alias(lv))
            v = self.eval(st, inner[0])
            return ('return', v)
        if k == 'IfStmt': return self.exec_if(st, n)
        if k == 'BreakStmt': return ('break',)
        if k == 'ContinueStmt': return ('continue',)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            from .loops import exec_loop
            return exec_loop(self, st, n)
        if k == 'SwitchStmt': return self.exec_switch(st, n)
        if k in ('LabelStmt', 'AttributedStmt'): return self.exec_stmt(st, n['inner'][-1])
        if k == 'GotoStmt': raise Unsupported('goto')
        self.eval(st, n, discard=True)
        return None

    def exec_if(self, st, n):
        inner = n['inner']
        i = 0
        if n.get('hasInit'): self.exec_stmt(st, inner[0]); i += 1
        if n.get('hasVar'): self.exec_stmt(st, inner[i]); i += 1
        c = self.evalb(st, inner[i])
        then = inner[i + 1]; els = inner[i + 2] if len(inner) > i + 2 else None
        d = self.decide(st, c)
        if d is True: return self.exec_stmt(st, then)
        if d is False: return self.exec_stmt(st, els) if els is not None else None
        def run(s):
            if self.branch(s, c): return self.exec_stmt(s, then)
            return self.exec_stmt(s, els) if els is not None else None
        return self.sub(st, run)

    def exec_switch(self, st, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        c = self.num(st, self.eval(st, inner[0]), 'I', n)
        body = inner[-1]
        flat = []
        def add(s):
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels.append(self.eval(st, s['inner'][0]))
                    s = s['inner'][-1]
                else:
                    labels.append('default')
                    s = s['inner'][-1]
            flat.append((labels, s))
        for s in body.get('inner', []): add(s)
        def run(s):
            start = None
            for i, (labels, _) in enumerate(flat):
                for l in labels:
                    if l != 'default' and self.branch(s, eq(c, self.num(s, l, 'I'))):
                        start = i; break
                if start is not None: break
            if start is None:
                for i, (labels, _) in enumerate(flat):
                    if 'default' in [x for x in labels if isinstance(x, str)]: start = i
            if start is None: return None
            r = self.exec_block(s, [x for _, x in flat[start:]])
            if r is not None and r[0] == 'break': return None
            return r
        return self.sub(st, run)

    def decl(self, st, d):
        key = (self.frame, d['id']); self.declname[d['id']] = d.get('name')
        t = qtype(d)
        inner = [c for c in d.get('inner', []) if not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static' : raise Unsupported('static local')
        if not inner:
            v = self.default_value(st, t)
            if v is None: v = self.construct(st, strip_type(t), None, [])
            if '[' in t: v = self.array_decl(st, t)
            st.env[key] = v
            return
        if t.rstrip().endswith('&') and not t.rstrip().endswith('&&'):
            lv = self.lvalue(st, inner[0])
            if lv[0] == 'val': st.env[key] = lv[1]
            elif lv[0] == 'elem':
                self.check_access(st, lv[1], d, 'reference')
                st.env[key] = Alias(lv)
            else:
                v = self.read(st, lv)
                st.env[key] = Alias(lv)
            return
        if '[' in t and not t.endswith('*'):
            st.env[key] = self.array_decl(st, t, inner[0]); return
        v = self.eval(st, inner[0])
        s = sort_of(t)
        if s and isinstance(v, T): v = self.num(st, v, s, d)
        if strip_type(t).startswith(CONTAINERS + MAPS):
            v = v if self._is_temp(inner[0]) else self.copy_value(st, v)
        st.env[key] = v

    def _is_temp(self, n):
        return False

    def array_decl(self, st, t, init=None):
        import re
        m = re.match(r'(.*?)\s*\[(\d+)\]$', strip_type(t))
        if not m: raise Unsupported('array type ' + t)
        s = sort_of(m.group(1)); ln = int(m.group(2))
        if s not in ('I', 'R'): raise Unsupported('array of ' + t)
        arr = tm.var(st.new('uninit'), 'A' + s)
        if init is not None:
            while init['kind'] in ('ExprWithCleanups',): init = init['inner'][0]
            vals = init.get('inner', [])
            for i in range(ln):
                v = self.num(st, self.eval(st, vals[i]), s) if i < len(vals) and vals[i].get('kind') != 'ImplicitValueInitExpr' else num(0, s)
                arr = store(arr, I(i), v)
        return Ptr(st.newbuf(I(ln), arr, s))

    # ------------------------------------------------------------- expressions
    def evalb(self, st, n):
        v = self.eval(st, n)
        return self.tobool(st, v, n)

    def tobool(self, st, v, n=None):
        if isinstance(v, T):
            return v if v.sort == 'B' else ne(v, num(0, v.sort))
        if isinstance(v, Ptr): return self.ptr_nonnull(st, v)
        if isinstance(v, O): return FALSE if v.oid is None else TRUE
        if isinstance(v, FnPtr): return TRUE
        if v is UNDEF: return self.num(st, v, 'B', n)
        raise Unsupported('bool of %r' % (v,))

    def ptr_nonnull(self, st, p):
        if p.bid is None: return FALSE
        return lt(ZERO, st.bufs[p.bid].len)

    def eval(self, st, n, discard=False):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        return m(st, n)

    def _pass(self, st, n):
        return self.eval(st, n['inner'][0])
    e_ParenExpr = _pass
    e_ExprWithCleanups = _pass
    e_CXXBindTemporaryExpr = _pass
    e_MaterializeTemporaryExpr = _pass
    e_SubstNonTypeTemplateParmExpr = _pass

    def e_ConstantExpr(self, st, n):
        if 'value' in n:
            try: return I(int(n['value']))
            except ValueError: pass
        return self._pass(st, n)
    def e_IntegerLiteral(self, st, n): return I(int(n['value']))
    def e_CharacterLiteral(self, st, n): return I(int(n['value']))
    def e_FloatingLiteral(self, st, n):
        v = float(n['value'])     # the shortest decimal that denotes the literal's value
        if n['type']['qualType'] == 'float':
            for d in range(1, 10):
                s = '%.*g' % (d, v)
                if struct.pack('f', float(s)) == struct.pack('f', v): return num(Fraction(s), 'R')
        return num(Fraction(repr(v)) if math.isfinite(v) else Fraction(n['value']), 'R')
    def e_CXXBoolLiteralExpr(self, st, n): return TRUE if n['value'] in (True, 'true', 'True') else FALSE
    def e_GNUNullExpr(self, st, n): return NULLPTR
    def e_CXXNullPtrLiteralExpr(self, st, n): return NULLPTR
    def e_StringLiteral(self, st, n): return Opaque('str:' + n.get('value', ''))
    def e_PredefinedExpr(self, st, n): return Opaque('str')
    def e_ImplicitValueInitExpr(self, st, n):
        s = sort_of(qtype(n))
        return num(0, s) if s in ('I', 'R') else FALSE
    def e_CXXScalarValueInitExpr(self, st, n): return self.e_ImplicitValueInitExpr(st, n)
    def e_CXXThisExpr(self, st, n): return self.this
    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        t = n.get('argType') or (n['inner'][0]['type'] if n.get('inner') else None)
        q = strip_type(t.get('desugaredQualType', t['qualType']))
        if q in REAL_T and q != 'double': return I(4)
        if q in ('double',): return I(8)
        if q in ('int', 'unsigned int', 'int32_t', 'uint32_t'): return I(4)
        if q in ('uint8_t', 'unsigned char', 'char', 'bool'): return ONE
        return I(8)

    def e_ImplicitCastExpr(self, st, n):
        ck = n['castKind']
        c = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.read(st, self.lvalue(st, c), n)
        if ck in ('IntegralToFloating',):
            return self.num(st, self.eval(st, c), 'R', n)
        if ck in ('FloatingToIntegral',):
            return self.num(st, self.eval(st, c), 'I', n)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(st, self.eval(st, c), n)
        if ck == 'IntegralCast':
            v = self.eval(st, c)
            if isinstance(v, T):
                v = self.num(st, v, 'I', n)
                src = strip_type(qtype(c)); dst = strip_type(qtype(n))
                if dst in ('unsigned char', 'uint8_t') and not (v.op == 'num' and 0 <= v.args[0] < 256):
                    return imod(v, I(256))
                if (dst.startswith('unsigned') or dst in ('size_t', 'uint32_t', 'uint64_t')) and not src.startswith('unsigned') and v.op != 'num':
                    self.asm_notes.add('signed to unsigned conversion treated as the mathematical value')
            return v
        if ck in ('FloatingCast', 'NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion',
                  'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'Dynamic'):
            return self.eval(st, c)
        if ck == 'ArrayToPointerDecay':
            return self.eval(st, c)
        if ck == 'UserDefinedConversion':
            return self.eval(st, c)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULLPTR
        if ck == 'ToVoid':
            self.eval(st, c); return None
        raise Unsupported('cast ' + ck)
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    # lvalue-producing expressions evaluated for their value
    def e_DeclRefExpr(self, st, n):
        r = n['referencedDecl']
        if r['kind'] == 'EnumConstantDecl':
            if r['name'] in self.prog.enums: return I(self.prog.enums[r['name']])
            raise Unsupported('enum constant ' + r['name'])
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            mn = self.tu.mangled.get(r['id'])
            return FnPtr(mn or ('ext:' + r.get('name', '?')))
        return self.read(st, self.lvalue(st, n), n)
    def e_MemberExpr(self, st, n): return self.read(st, self.lvalue(st, n), n)
    def e_ArraySubscriptExpr(self, st, n): return self.read(st, self.lvalue(st, n), n)

    def lvalue(self, st, n):
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'SubstNonTypeTemplateParmExpr', 'CXXBindTemporaryExpr'): return self.lvalue(st, n['inner'][0])
        if k == 'MaterializeTemporaryExpr':
            return ('val', self.eval(st, n['inner'][0]))
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr') and n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BitCast'):
            return self.lvalue(st, n['inner'][0])
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] in ('VarDecl', 'ParmVarDecl'):
                key = (self.frame, r['id'])
                if key not in st.env:
                    return ('val', self.global_var(st, r))
                return ('var', key)
            return ('val', self.e_DeclRefExpr(st, n))
        if k == 'MemberExpr':
            return self.member_lv(st, n)
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            p = self.eval(st, b); i = self.num(st, self.eval(st, i), 'I', n)
            if not isinstance(p, Ptr): raise Unsupported('subscript of %r' % (p,))
            return ('elem', Ptr(p.bid, add(p.off, i)))
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '*':
                v = self.eval(st, n['inner'][0])
                if isinstance(v, Ptr): return ('elem', v)
                if isinstance(v, O):
                    if v.oid is None:
                        self.oblige(st, 'null', FALSE, n, 'dereference of a null reference'); raise Prune()
                    return ('val', v)
                raise Unsupported('deref')
            if op in ('++', '--') and not n.get('isPostfix'):
                self.eval(st, n)
                return self.lvalue(st, n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            self.eval(st, n)
            return self.lvalue(st, n['inner'][0])
        if k == 'ConditionalOperator':
            c = self.evalb(st, n['inner'][0])
            return self.lvalue(st, n['inner'][1] if self.branch(st, c) else n['inner'][2])
        if k == 'CXXOperatorCallExpr' or k == 'CXXMemberCallExpr' or k == 'CallExpr':
            v = self.call_expr(st, n, want_lv=True)
            if isinstance(v, Alias): return v.lv
            return ('val', v)
        return ('val', self.eval(st, n))

    def global_var(self, st, r):
        name = r.get('name', '')
        d = self.tu.decls.get(r['id'])
        t = qtype(r) if 'type' in r else ''
        if d is not None and t.startswith('const ') and d.get('inner'):
            return self.eval(st, d['inner'][0])
        if d is None and name in GLOBAL_CONST: return GLOBAL_CONST[name]
        raise Unsupported('global variable %s' % name)

    def member_lv(self, st, n):
        name = n.get('name')
        base = n['inner'][0]
        if not name:
            return self.lvalue(st, base)
        if n.get('isArrow'):
            v = self.eval(st, base)
            lv = ('val', v)
        else:
            lv = self.lvalue(st, base)
            v = self.read(st, lv, n)
        if isinstance(v, Struct):
            f = FIELD_ALIAS.get(name, name)
            if f not in v.f: raise Unsupported('struct field ' + name)
            return ('sub', lv, f)
        if v is UNDEF and strip_type(qtype(base)) in STRUCTS:
            return ('val', UNDEF)
        if isinstance(v, O):
            if v.oid is None:
                self.oblige(st, 'null', FALSE, n, 'member access through a null reference'); raise Prune()
            return ('field', v.oid, name)
        raise Unsupported('member %s of %r' % (name, v))

    # operators
    def e_UnaryOperator(self, st, n):
        op = n['opcode']; c = n['inner'][0]
        if op == '!': return bnot(self.evalb(st, c))
        if op in ('-', '+'):
            v = self.eval(st, c)
            if isinstance(v, T) and v.sort == 'B': v = self.num(st, v, 'I')
            if v is UNDEF: v = self.num(st, v, sort_of(qtype(n)) or 'I', n)
            if not isinstance(v, T): raise Unsupported('negation')
            return neg(v) if op == '-' else v
        if op in ('++', '--'):
            lv = self.lvalue(st, c)
            v = self.read(st, lv, n)
            d = ONE if op == '++' else neg(ONE)
            if isinstance(v, Ptr): nv = Ptr(v.bid, add(v.off, d))
            elif v is UNDEF: v = self.num(st, v, sort_of(qtype(n)) or 'I', n); nv = add(v, lift(int(d.args[0]), v.sort))
            else: nv = add(v, num(d.args[0], v.sort))
            self.write(st, lv, nv, n)
            return v if n.get('isPostfix') else nv
        if op == '*': return self.read(st, self.lvalue(st, n), n)
        if op == '&':
            if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('CXXMethodDecl', 'FunctionDecl'):
                return self.e_DeclRefExpr(st, c)
            lv = self.lvalue(st, c)
            if lv[0] == 'elem': return lv[1]
            v = self.read(st, lv, n)
            if isinstance(v, O): return v
            raise Unsupported('address of')
        if op == '__extension__': return self.eval(st, c)
        raise Unsupported('unary ' + op)

    def pure_under(self, st, c, fn):
        """evaluate fn under the extra fact c without committing; returns (ok, value) when side-effect free"""
        s2 = st.copy()
        try: s2.take(c)
        except Prune: return True, None
        n0 = len(self.obls)
        d0 = self.discharged
        outs = self.explore(s2, fn)
        if len(outs) == 0:
            return True, None
        if len(outs) == 1:
            s3, v = outs[0]
            if s3.env == s2.env and all(s3.objs.get(k) is o for k, o in s2.objs.items()) and \
               all(s3.bufs.get(k) is b for k, b in s2.bufs.items()) and s3.br == s2.br:
                for f in s3.asm[len(s2.asm):]: st.assume(implies(c, f))
                st.ctr = max(st.ctr, s3.ctr)
                return True, v
        del self.obls[n0:]
        self.discharged = d0
        return False, None

    def e_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            x = self.evalb(st, a)
            if op == '&&':
                if x is FALSE: return FALSE
                if x is TRUE: return self.evalb(st, b)
                ok, y = self.pure_under(st, x, lambda s: self.evalb(s, b))
                if ok: return band(x, y) if y is not None else FALSE
                if self.branch(st, x): return self.evalb(st, b)
                return FALSE
            if x is TRUE: return TRUE
            if x is FALSE: return self.evalb(st, b)
            ok, y = self.pure_under(st, bnot(x), lambda s: self.evalb(s, b))
            if ok: return bor(x, y) if y is not None else TRUE
            if self.branch(st, x): return TRUE
            return self.evalb(st, b)
        if op == ',':
            self.eval(st, a); return self.eval(st, b)
        if op == '=':
            lv = self.lvalue(st, a)
            v = self.eval(st, b)
            s = sort_of(qtype(a))
            if s and isinstance(v, T): v = self.num(st, v, s, n)
            self.write(st, lv, v, n)
            return v
        if op in ('->*', '.*'):
            o = self.eval(st, a); f = self.eval(st, b)
            return FnPtr(f.name, o)
        x = self.eval(st, a); y = self.eval(st, b)
        return self.binop(st, op, x, y, n)

    def binop(self, st, op, x, y, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr): return self.ptr_op(st, op, x, y, n)
        if isinstance(x, O) or isinstance(y, O):
            if op == '==': return TRUE if x == y else FALSE
            if op == '!=': return FALSE if x == y else TRUE
            raise Unsupported('op on refs')
        if isinstance(x, FnPtr) and isinstance(y, FnPtr) and op in ('==', '!='):
            return TRUE if (x == y) == (op == '==') else FALSE
        sx = x.sort if isinstance(x, T) else None
        sy = y.sort if isinstance(y, T) else None
        if sx is None and sy is None:
            if x is UNDEF: sx = sort_of(qtype(n['inner'][0]))
            if sx is None: raise Unsupported('binary %s on %r %r' % (op, x, y))
        s = 'R' if 'R' in (sx, sy) else 'I'
        if sx == 'B' and sy == 'B' and op in ('==', '!=', '&', '|', '^'):
            if op == '==': return iff(x, y)
            if op in ('!=', '^'): return bnot(iff(x, y))
            return band(x, y) if op == '&' else bor(x, y)
        x = self.num(st, x, s, n); y = self.num(st, y, s, n)
        if op == '+': return add(x, y)
        if op == '-': return sub(x, y)
        if op == '*': return mul(x, y)
        if op == '/':
            if s == 'R': return rdiv(x, y)
            return self.int_div(st, x, y, n)[0]
        if op == '%': return self.int_div(st, x, y, n)[1]
        if op == '<': return lt(x, y)
        if op == '<=': return le(x, y)
        if op == '>': return lt(y, x)
        if op == '>=': return le(y, x)
        if op == '==': return eq(x, y)
        if op == '!=': return ne(x, y)
        if op == '<<' and y.op == 'num': return mul(x, I(2 ** int(y.args[0])))
        if op == '>>' and y.op == 'num': return idiv(x, I(2 ** int(y.args[0])))
        if op in ('&', '|', '^') and x.op == 'num' and y.op == 'num':
            a, b = int(x.args[0]), int(y.args[0])
            return I(a & b if op == '&' else a | b if op == '|' else a ^ b)
        if op == '&' and y.op == 'num' and int(y.args[0]) == 1: return imod(x, I(2))
        raise Unsupported('binary ' + op)

    def int_div(self, st, x, y, n):
        self.oblige(st, 'divzero', ne(y, ZERO), n, 'integer division by zero')
        if self.decide(st, le(ZERO, x)) and self.decide(st, le(ONE, y)):
            return idiv(x, y), imod(x, y)
        q = tdiv(x, y)
        return q, sub(x, mul(q, y))

    def ptr_op(self, st, op, x, y, n):
        if op in ('==', '!='):
            if isinstance(x, O): x = NULLPTR if x.oid is None else x
            if isinstance(y, O): y = NULLPTR if y.oid is None else y
            if isinstance(x, O) or isinstance(y, O): r = FALSE
            elif x.bid is None and y.bid is None: r = TRUE
            elif x.bid is None: r = bnot(self.ptr_nonnull(st, y))
            elif y.bid is None: r = bnot(self.ptr_nonnull(st, x))
            elif x.bid == y.bid: r = eq(x.off, y.off)
            else: r = band(bnot(self.ptr_nonnull(st, x)), bnot(self.ptr_nonnull(st, y)))
            return r if op == '==' else bnot(r)
        if op in ('+', '-') and isinstance(x, Ptr) and isinstance(y, T):
            return Ptr(x.bid, add(x.off, y) if op == '+' else sub(x.off, y))
        if op == '+' and isinstance(x, T): return Ptr(y.bid, add(y.off, x))
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.bid == y.bid:
            if op == '-': return sub(x.off, y.off)
            f = {'<': lt, '<=': le, '>': lambda a, b: lt(b, a), '>=': lambda a, b: le(b, a)}.get(op)
            if f: return f(x.off, y.off)
        raise Unsupported('pointer op ' + op)

    def e_CompoundAssignOperator(self, st, n):
        a, b = n['inner']
        lv = self.lvalue(st, a)
        y = self.eval(st, b)
        x = self.read(st, lv, n)
        v = self.binop(st, n['opcode'][:-1], x, y, n)
        s = sort_of(qtype(a))
        if s and isinstance(v, T): v = self.num(st, v, s, n)
        self.write(st, lv, v, n)
        return v

    def e_ConditionalOperator(self, st, n):
        c = self.evalb(st, n['inner'][0])
        a, b = n['inner'][1], n['inner'][2]
        d = self.decide(st, c)
        if d is True: return self.eval(st, a)
        if d is False: return self.eval(st, b)
        ok1, x = self.pure_under(st, c, lambda s: self.eval(s, a))
        if ok1 and x is not None:
            ok2, y = self.pure_under(st, bnot(c), lambda s: self.eval(s, b))
            if ok2 and y is not None:
                if isinstance(x, T) and isinstance(y, T):
                    if 'B' in (x.sort, y.sort) and x.sort != y.sort:
                        x = self.num(st, x, 'I'); y = self.num(st, y, 'I')
                    return ite(c, x, y)
                if x == y: return x
        if self.branch(st, c): return self.eval(st, a)
        return self.eval(st, b)

    def e_InitListExpr(self, st, n):
        raise Unsupported('initializer list')

    def e_CXXDefaultArgExpr(self, st, n): raise Unsupported('default argument')

    def e_CXXNewExpr(self, st, n):
        t = strip_type(qtype(n)).rstrip('*').strip()
        ctor = [c for c in n.get('inner', []) if c['kind'] == 'CXXConstructExpr']
        if t in self.prog.classes:
            args = []
            mn = None
            if ctor:
                mn, args = self.ctor_of(st, t, ctor[0])
            return self.construct(st, t, mn, args, n)
        raise Unsupported('new ' + t)

    def ctor_of(self, st, t, n):
        want = n.get('ctorType', {}).get('qualType')
        cands = self.prog.byname.get('%s::%s' % (t, t.split('::')[-1]), [])
        for m in cands:
            if self.prog.funcs[m][1]['type']['qualType'] == want:
                return m, self.call_args(st, self.prog.funcs[m], n.get('inner', []), m)
        if not n.get('inner'): return None, []
        raise Unsupported('constructor of %s' % t)

    def e_CXXConstructExpr(self, st, n):
        t = strip_type(qtype(n))
        args = n.get('inner', [])
        if t.startswith('Ref<'):
            if not args: return NULLO
            v = self.eval(st, args[0])
            if isinstance(v, Ptr) and v.bid is None: return NULLO
            if isinstance(v, O):
                want = t[4:-1].strip()
                if v.oid is not None and want in CLS3 and st.objs[v.oid].cls in CLS3 and st.objs[v.oid].cls != want: return NULLO     # a Ref of another class casts to none
                return v
            raise Unsupported('Ref from %r' % (v,))
        if t in STRUCTS:
            fs = STRUCTS[t]
            if not args: return Struct('S%d' % len(fs), {f: ZERO for f in fs})
            if len(args) == 1:
                v = self.eval(st, args[0])
                if isinstance(v, Struct): return v
                if v is UNDEF: return v
            if len(args) == len(fs):
                return Struct('S%d' % len(fs), {f: self.num(st, self.eval(st, a), 'I', n) for f, a in zip(fs, args)})
            raise Unsupported('construct ' + t)
        if t in RSTRUCTS and len(args) == len(RSTRUCTS[t]):
            return Struct('R%d' % len(args), {f: self.num(st, self.eval(st, a), 'R', n) for f, a in zip(RSTRUCTS[t], args)})
        if t in RSTRUCTS and len(args) == 1:
            v = self.eval(st, args[0])
            if isinstance(v, Struct): return v
        if t.endswith('::Write') or t.endswith('::Read') or '::Read' in t or '::Write' in t:
            return self.eval(st, args[0]) if args else NULLPTR
        if t.startswith(MAPS):
            if [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']: raise Unsupported('copy of a map')
            return self.new_map(st, t)
        if t.startswith(CONTAINERS):
            a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            if not a: return self.new_container(st, t)
            v = self.eval(st, a[0])
            if isinstance(v, O): return self.copy_value(st, v)
            if isinstance(v, T) and self.elem_sort(t) != 'L':
                o = self.new_container(st, t)
                es = self.elem_sort(t)
                fill = self.num(st, self.eval(st, a[1]), es, n) if len(a) > 1 else num(0, es)
                st.setbuf(st.getf(o.oid, 'data').bid, len=v, arr=LAM(lambda k: fill))
                return o
            raise Unsupported('container construction')
        if t.startswith('std::tuple<'):
            if len(args) == 1:
                v = self.eval(st, args[0])
                if isinstance(v, Struct): return v
                raise Unsupported('construct ' + t)
            els = [strip_type(x) for x in t[len('std::tuple<'):-1].split(',')]
            if len(els) != len(args) or not all(sort_of(x) for x in els): raise Unsupported('construct ' + t)
            return Struct('T%d' % len(args), {str(i): self.num(st, self.eval(st, a), sort_of(x), n) for i, (a, x) in enumerate(zip(args, els))})
        if t.startswith('SortArray<'): return Opaque(t)
        if t.startswith(RANDOM_T): return Opaque(t)
        if t.startswith('std::') and '_distribution<' in t:
            kind = t[5:t.index('_distribution<')]
            if kind not in ('uniform_int', 'uniform_real', 'normal'): raise Unsupported('construct ' + t)
            so = 'I' if kind == 'uniform_int' else 'R'
            a = [self.num(st, self.eval(st, x), so, n) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            if len(a) != 2: raise Unsupported('construct ' + t)
            if so == 'I': self.oblige(st, 'draw', le(a[0], a[1]), n, 'the range of a random number is not empty')
            return Struct('D' + kind, {'a': a[0], 'b': a[1]})
        if t.startswith('(lambda') and len(args) == 1: return self.eval(st, args[0])
        if t == 'Variant' and len(args) == 1:
            v = self.eval(st, args[0])
            if isinstance(v, T) and v.sort == 'I': return v
            if isinstance(v, O): return v        # a Variant holding an object converts back to a reference to it
            return Opaque(t)
        if t.startswith(OPAQUE_T): return Opaque(t)
        if t in self.prog.classes:
            if len(args) == 1 and strip_type(qtype(args[0])) == t:
                v = self.eval(st, args[0])
                if not isinstance(v, O) or v.oid is None or self.prog.classes[t]['bases'] or st.objs[v.oid].cls != t: raise Unsupported('copy of %s' % t)
                own = [m for m in self.prog.byname.get(t + '::' + t.split('::')[-1], []) if len(self.prog.funcs[m][1]['_params']) == 1 and strip_type(qtype(self.prog.funcs[m][1]['_params'][0])).rstrip('& ') == t and not self.prog.funcs[m][1].get('isImplicit')]
                if own: raise Unsupported('copy of %s' % t)
                return st.newobj(t, {k: self.copy_value(st, x) for k, x in st.objs[v.oid].f.items()})
            mn, av = self.ctor_of(st, t, n)
            return self.construct(st, t, mn, av, n)
        raise Unsupported('construct ' + t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXMemberCallExpr(self, st, n): return self.unalias(st, self.call_expr(st, n), n)
    def e_CXXOperatorCallExpr(self, st, n): return self.unalias(st, self.call_expr(st, n), n)
    def e_CallExpr(self, st, n): return self.unalias(st, self.call_expr(st, n), n)
    def unalias(self, st, v, n=None):
        if isinstance(v, Alias): return self.read(st, v.lv, n)
        return v

    def call_args(self, st, fnrec, nodes, mn):
        """evaluate call arguments according to the parameter types"""
        tu, fn = fnrec
        out = []
        for i, p in enumerate(fn['_params']):
            t = qtype(p).rstrip()
            if i < len(nodes) and nodes[i]['kind'] != 'CXXDefaultArgExpr':
                a = nodes[i]
                if t.endswith('&') and not t.startswith('const '):
                    lv = self.lvalue(st, a)
                    if lv[0] == 'val': out.append(lv[1])
                    else:
                        if lv[0] == 'elem': self.check_access(st, lv[1], a, 'reference')
                        out.append(Alias(lv))
                else:
                    if t.endswith('&'):
                        v = self.read(st, self.lvalue(st, a), a)
                    else:
                        v = self.eval(st, a)
                        if strip_type(t).startswith(CONTAINERS): v = self.copy_value(st, v)
                    s = sort_of(t)
                    if s and isinstance(v, T): v = self.num(st, v, s, a)
                    out.append(v)
            else:
                ptu, pd = self.prog.protos[mn]
                pp = pd['_params'][i]
                dn = pp.get('inner')
                if not dn: raise Unsupported('default argument of %s' % mn)
                self.tus.append(ptu)
                try: v = self.eval(st, dn[0])
                finally: self.tus.pop()
                s = sort_of(t)
                if s and isinstance(v, T): v = self.num(st, v, s)
                out.append(v)
        return out

    def draw(self, st, kind, a, b):
        """the next number of the random stream: an arbitrary function of its position and of the distribution"""
        if '$rng' not in st.objs: raise Unsupported('random number')
        k = st.getf('$rng', 'drawn')
        st.setf('$rng', 'drawn', add(k, ONE))
        v = uf('$draw_' + kind, 'I' if kind == 'uniform_int' else 'R', k, a, b)
        if kind == 'uniform_int': st.assume(le(a, v), le(v, b))
        return v
    def call_expr(self, st, n, want_lv=False):
        k = n['kind']
        inner = n['inner']
        callee = inner[0]
        if k == 'CXXMemberCallExpr':
            c = callee
            while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'): c = c['inner'][0]
            if c['kind'] == 'MemberExpr':
                mn = self.tu.mangled.get(c.get('referencedMemberDecl'))
                base = c['inner'][0]
                bt = strip_type(qtype(base)).rstrip('*').strip()
                if mn is not None and not bt.startswith(('Ref<', 'Vector<')):
                    o = self.eval(st, base) if c.get('isArrow') else self.read(st, self.lvalue(st, base), n)
                    if not isinstance(o, O):
                        if isinstance(o, Ptr) and o.bid is None: o = NULLO
                        else: raise Unsupported('method call on %r' % (o,))
                    rec = self.prog.funcs.get(mn) or self.prog.protos.get(mn)
                    args = self.call_args(st, rec, inner[1:], mn)
                    if o.oid is None:
                        self.oblige(st, 'null', FALSE, n, 'call of %s through a null reference' % self.fname(mn)); raise Prune()
                    return self.call_function(st, mn, o, args, n)
                return self.builtin_method(st, n, c, base, bt, inner[1:])
            if c['kind'] == 'BinaryOperator':
                f = self.eval(st, c)
                if not isinstance(f, FnPtr) or f.name not in self.prog.funcs: raise Unsupported('member pointer call')
                args = self.call_args(st, self.prog.funcs[f.name], inner[1:], f.name)
                return self.call_function(st, f.name, f.this, args, n)
            raise Unsupported('member call')
        c = callee
        while c['kind'] in ('ParenExpr', 'ImplicitCastExpr') : c = c['inner'][0]
        r = c.get('referencedDecl')
        if k == 'CXXOperatorCallExpr':
            mn = self.tu.mangled.get(r['id'])
            name = r['name']
            if name == 'operator()' and '_distribution<' in strip_type(qtype(inner[1])):
                d = self.read(st, self.lvalue(st, inner[1]), n)
                if not isinstance(d, Struct): raise Unsupported('random number')
                return self.draw(st, d.name[1:], d.f['a'], d.f['b'])
            if name == 'operator()' and strip_type(qtype(inner[1])).startswith(RANDOM_T): return Opaque('seed')
            if name == 'operator()' and mn is None:
                f = self.read(st, self.lvalue(st, inner[1]), n)
                if isinstance(f, Closure): return self.call_closure(st, f, inner[2:])
            if mn is not None:
                o = self.read(st, self.lvalue(st, inner[1]), n)
                if isinstance(o, O) and o.oid is not None:
                    args = self.call_args(st, self.prog.funcs.get(mn) or self.prog.protos[mn], inner[2:], mn)
                    return self.call_function(st, mn, o, args, n)
            return self.builtin_operator(st, n, name, inner[1:], want_lv)
        # plain call
        if r is None or r['kind'] in ('ParmVarDecl', 'VarDecl', 'FieldDecl') or c['kind'] == 'MemberExpr':
            f = self.eval(st, callee)
            if isinstance(f, FnPtr):
                return self.call_fnptr(st, f, inner[1:], n)
            raise Unsupported('call through pointer')
        mn = self.tu.mangled.get(r['id'])
        if mn is not None and (mn in self.prog.funcs or mn in self.contracts):
            rec = self.prog.funcs.get(mn) or self.prog.protos.get(mn)
            args = self.call_args(st, rec, inner[1:], mn)
            return self.call_function(st, mn, None, args, n)
        return self.builtin_call(st, n, r, inner[1:])

    def e_LambdaExpr(self, st, n):
        return Closure(n, self.frame)
    def call_closure(self, st, f, argn):
        if f.frame != self.frame: raise Unsupported('lambda called outside its function')
        rec = [c for c in f.node['inner'] if c['kind'] == 'CXXRecordDecl'][0]
        op = [c for c in rec.get('inner', []) if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()'][0]
        body = [c for c in f.node['inner'] if c['kind'] == 'CompoundStmt'][-1]
        for p, a in zip([c for c in op.get('inner', []) if c['kind'] == 'ParmVarDecl'], argn):
            t = qtype(p)
            if t.rstrip().endswith('&') and not t.startswith('const'): st.env[(self.frame, p['id'])] = Alias(self.lvalue(st, a))
            else: st.env[(self.frame, p['id'])] = self.eval(st, a)
        def run(s):
            return self.exec_block(s, body.get('inner', []))
        r = self.sub(st, run)
        return r[1] if isinstance(r, tuple) and r[0] == 'return' else None

    def call_fnptr(self, st, f, argnodes, n):
        if f.name in self.prog.funcs:
            args = self.call_args(st, self.prog.funcs[f.name], argnodes, f.name)
            return self.call_function(st, f.name, f.this, args, n)
        if f.name.startswith('$'):
            vals = []
            for a in argnodes:
                v = self.eval(st, a)
                if isinstance(v, T): vals.append(self.num(st, v, 'R'))
                elif isinstance(v, O):
                    o = st.objs[v.oid]
                    if o.cls == 'MLPPVector':
                        b = st.bufs[o.f['_data'].bid]
                        ln = o.f['_size']
                        vals += [ln, tm.canonical_fn(ln, lambda kk: sel(b.arr, kk))]
                    else: raise Unsupported('function pointer argument')
                else: raise Unsupported('function pointer argument')
            return uf(f.name, 'R', *vals)
        raise Unsupported('call of %s' % f.name)

    IGNORED = {'log_error', 'log_index_error', 'log_warning', 'log_info', '_RLOG_MACRO_TEMPLATE_FUNC', 'get_message_string_ptr', 'log_ret_ptr', 'print_line', 'flush'}

    def builtin_call(self, st, n, r, argn):
        name = r.get('name')
        if name in self.IGNORED: return None
        if name == '__builtin_expect': return self.eval(st, argn[0])
        if name in ('__builtin_trap', 'abort'):
            self.oblige(st, 'crash', FALSE, n, 'deliberate crash (CRASH_* macro) is not reached')
            raise Prune()
        if name == '__builtin_inff' or name == '__builtin_inf' or name == '__builtin_huge_valf': return tm.var('$INF', 'R')
        if name == 'realloc_static': return self.b_realloc(st, n, argn)
        if name == 'alloc_static': return self.b_alloc(st, n, argn)
        if name == 'free_static': return self.b_free(st, n, argn)
        if name in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove'): return self.b_memcpy(st, n, argn, name)
        if name in ('fill', 'fill_n', 'copy', 'copy_n', 'memset', '__builtin_memset'):
            return self.std_algorithm(st, n, name.replace('__builtin_', ''), argn)
        if name == '_post_initialize': return self.eval(st, argn[0])
        if name == 'get' and len(argn) == 1 and 'tuple<' in qtype(argn[0]):
            m = re.match(r'.*?__tuple_element_t<(\d+)', r.get('type', {}).get('qualType', ''))
            v = self.eval(st, argn[0])
            if m and isinstance(v, Struct): return v.f[m.group(1)]
            raise Unsupported('std::get')
        if name == 'make_tuple':
            vs = [self.eval(st, a) for a in argn]
            if all(isinstance(v, T) for v in vs): return Struct('T%d' % len(vs), {str(i): v for i, v in enumerate(vs)})
            raise Unsupported('std::make_tuple')
        if name == 'memdelete': return None
        if name in ('__swap_tmpl', 'swap'):
            la = self.lvalue(st, argn[0]); lb = self.lvalue(st, argn[1])
            x = self.read(st, la, n); y = self.read(st, lb, n)
            self.write(st, la, y, n); self.write(st, lb, x, n)
            return None
        vals = [self.eval(st, a) for a in argn if a['kind'] != 'CXXDefaultArgExpr']
        if name in ('abs', 'fabs'):
            v = vals[0]
            if v is UNDEF: v = self.num(st, v, 'R', n)
            return ite(le(num(0, v.sort), v), v, neg(v))
        if name in ('fmax', 'fmin', 'max', 'min', 'MAX', 'MIN') and len(vals) == 2:
            s = 'R' if name[0] == 'f' or 'R' in (vals[0].sort, vals[1].sort) else 'I'
            a, b = [self.num(st, v, s, n) for v in vals]
            return rmax(a, b) if name in ('fmax', 'max', 'MAX') else rmin(a, b)
        if name == 'is_equal_approx':
            v = [self.num(st, x, 'R', n) for x in vals]
            return approx_eq(*v)
        if name == 'is_zero_approx':
            v = self.num(st, vals[0], 'R', n)
            return lt(rabs(v), CMP_EPSILON)
        if name == 'is_nan': return FALSE
        if name == 'is_inf': return FALSE
        if name == 'pow': return app('pow', self.num(st, vals[0], 'R', n), self.num(st, vals[1], 'R', n))
        if name == 'atan2': return app('atan2', self.num(st, vals[0], 'R', n), self.num(st, vals[1], 'R', n))
        if name in ('sign', 'SIGN', 'SGN'):
            v = vals[0]
            return ite(eq(v, num(0, v.sort)), num(0, v.sort), ite(lt(v, num(0, v.sort)), num(-1, v.sort), num(1, v.sort)))
        if name in MATH1:
            nm = name[:-1] if name in ('expf', 'logf', 'sqrtf') else name
            v = self.num(st, vals[0], 'R', n)
            if nm in ('floor', 'ceil', 'round') and v.op == 'num':
                import math
                x = v.args[0]
                return num(math.floor(x) if nm == 'floor' else math.ceil(x) if nm == 'ceil' else (math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))), 'R')
            return app(nm, v)
        raise Unsupported('call of %s' % name)

    def bytes_to_elems(self, st, t, esz):
        c = t
        if esz == 1: return c
        p = {m: k / esz for m, k in tm._poly(c).items()}
        if all(k.denominator == 1 for k in p.values()): return tm._mkpoly(p, 'I')
        raise Unsupported('allocation size %s' % show(t))

    def esize(self, sort): return 4

    def b_realloc(self, st, n, argn):
        p = self.eval(st, argn[0])
        bytes_ = self.num(st, self.eval(st, argn[1]), 'I', n)
        sort = 'R'
        if p.bid is not None: sort = st.bufs[p.bid].sort
        cnt = self.bytes_to_elems(st, bytes_, 4)
        # a zero request releases; keep one representation: empty buffer == null
        unin = tm.var(st.new('uninit'), 'A' + sort)
        self.oblige(st, 'alloc', le(ZERO, cnt), n, 'allocation size is not negative')
        if p.bid is None:
            return Ptr(st.newbuf(cnt, unin, sort))
        b = st.bufs[p.bid]
        if b.alive is not TRUE: self.oblige(st, 'released', b.alive, n, 'realloc after release')
        if p.off is not ZERO: self.oblige(st, 'alloc', eq(p.off, ZERO), n, 'realloc of an interior pointer')
        kk = fresh('k', 'I')
        arr = mk_lam(kk, ite(lt(kk, b.len), sel(b.arr, kk), sel(unin, kk)))
        if self.decide(st, le(cnt, b.len)): arr = b.arr
        bid = st.newbuf(cnt, arr, sort)
        st.setbuf(p.bid, alive=FALSE)
        return Ptr(bid)

    def b_alloc(self, st, n, argn):
        cnt = self.bytes_to_elems(st, self.num(st, self.eval(st, argn[0]), 'I', n), 4)
        self.oblige(st, 'alloc', le(ZERO, cnt), n, 'allocation size is not negative')
        return Ptr(st.newbuf(cnt, tm.var(st.new('uninit'), 'AR'), 'R'))

    def b_free(self, st, n, argn):
        p = self.eval(st, argn[0])
        if p.bid is None: return None
        b = st.bufs[p.bid]
        if b.alive is not TRUE: self.oblige(st, 'released', bor(b.alive, le(b.len, ZERO)), n, 'double free')
        if p.off is not ZERO: self.oblige(st, 'alloc', eq(p.off, ZERO), n, 'free of an interior pointer')
        st.setbuf(p.bid, alive=FALSE)
        return None

    def b_memcpy(self, st, n, argn, name):
        d = self.eval(st, argn[0]); s = self.eval(st, argn[1])
        cnt = self.bytes_to_elems(st, self.num(st, self.eval(st, argn[2]), 'I', n), 4)
        return self.copy_cells(st, n, d, s, cnt, name)
    def copy_cells(self, st, n, d, s, cnt, name):
        if self.decide(st, le(cnt, ZERO)): return d
        if d.bid is None or s.bid is None:
            self.oblige(st, 'null', le(cnt, ZERO), n, name + ' through a null pointer')
            return d
        bd, bs = st.bufs[d.bid], st.bufs[s.bid]
        if bd.sort != bs.sort or bd.sort == 'L': raise Unsupported('memcpy')
        for p, b in ((d, bd), (s, bs)):
            if b.alive is not TRUE: self.oblige(st, 'released', bor(b.alive, le(cnt, ZERO)), n, name + ' after release')
            self.oblige(st, 'bounds', bor(le(cnt, ZERO), band(le(ZERO, p.off), le(add(p.off, cnt), b.len))), n, name + ' inside the storage')
        kk = fresh('k', 'I')
        rel = sub(kk, d.off)
        st.setbuf(d.bid, arr=mk_lam(kk, ite(band(le(ZERO, rel), lt(rel, cnt)), sel(bs.arr, add(s.off, rel)), sel(bd.arr, kk))))
        return d

    def std_algorithm(self, st, n, name, argn):
        """fill, copy and their counted forms over pointers; memset to zero"""
        v = [self.eval(st, a) for a in argn]
        if not isinstance(v[0], Ptr): raise Unsupported('call of ' + name)
        if name in ('copy', 'copy_n'):
            d = v[2]; s = v[0]
            if name == 'copy' and v[1].bid != s.bid: raise Unsupported('call of ' + name)
            cnt = sub(v[1].off, s.off) if name == 'copy' else self.num(st, v[1], 'I', n)
            r = self.copy_cells(st, n, d, s, cnt, name)
            return Ptr(d.bid, add(d.off, cnt)) if d.bid is not None else r
        d = v[0]
        if name == 'memset':
            cnt = self.bytes_to_elems(st, self.num(st, v[2], 'I', n), 4); x = v[1]
            if x is not ZERO: raise Unsupported('memset')
        elif name == 'fill':
            if v[1].bid != d.bid: raise Unsupported('call of fill')
            cnt = sub(v[1].off, d.off); x = v[2]
        else: cnt = self.num(st, v[1], 'I', n); x = v[2]
        if d.bid is None or self.decide(st, le(cnt, ZERO)):
            if d.bid is None: self.oblige(st, 'null', le(cnt, ZERO), n, name + ' through a null pointer')
            return d
        b = st.bufs[d.bid]
        if b.sort == 'L': raise Unsupported(name)
        if b.alive is not TRUE: self.oblige(st, 'released', b.alive, n, name + ' after release')
        self.oblige(st, 'bounds', band(le(ZERO, d.off), le(add(d.off, cnt), b.len)), n, name + ' inside the storage')
        kk = fresh('k', 'I'); rel = sub(kk, d.off)
        st.setbuf(d.bid, arr=mk_lam(kk, ite(band(le(ZERO, rel), lt(rel, cnt)), self.num(st, x, b.sort, n), sel(b.arr, kk))))
        return d

    # ------------------------------------------------------------- Ref / containers / structs
    def builtin_method(self, st, n, c, base, bt, argn):
        name = c['name']
        if bt.startswith('Ref<'):
            lv = self.lvalue(st, base)
            if name == 'instance':
                cls = bt[4:-1]
                o = self.construct(st, cls, None, [])
                self.write(st, lv, o, n)
                return None
            v = self.read(st, lv, n)
            if name == 'is_valid': return FALSE if v.oid is None else TRUE
            if name == 'is_null': return TRUE if v.oid is None else FALSE
            if name in ('ptr', 'get_ref_ptr', 'operator->'): return v
            if name == 'unref': self.write(st, lv, NULLO, n); return None
            if name == 'reference_ptr' or name == 'ref':
                self.write(st, lv, self.eval(st, argn[0]), n); return None
            raise Unsupported('Ref::' + name)
        if bt.startswith(CONTAINERS) or '::Read' in bt or '::Write' in bt:
            return self.container_method(st, n, c, base, bt, name, argn)
        if bt.startswith(MAPS): return self.map_method(st, n, c, base, bt, name, argn)
        if bt in STRUCTS:
            v = self.read(st, self.lvalue(st, base), n)
            raise Unsupported('struct method ' + name)
        if bt.startswith('SortArray<') and name == 'sort' and ('_DefaultComparator' in bt or ',' not in bt) and len(argn) == 2:
            # sfw's introsort with the default comparator: assumed to sort
            from contracts.common import order_stat
            p = self.eval(st, argn[0]); cnt = self.num(st, self.eval(st, argn[1]), 'I', n)
            if not isinstance(p, Ptr) or p.bid is None: raise Unsupported('sort of %r' % (p,))
            b = st.bufs[p.bid]
            if b.sort != 'R': raise Unsupported('sort of integers')
            self.asm_notes.add('SortArray<real_t>::sort (platform/sfw.h, default comparator) sorts ascending: assumed, exercised by native runs only')
            self.oblige(st, 'bounds', bor(le(cnt, ZERO), band(le(ZERO, p.off), le(add(p.off, cnt), b.len))), n, 'sorted range inside the storage')
            arr = b.arr; src = arr if p.off is ZERO else LAM(lambda k: sel(arr, add(k, p.off)))
            st.setbuf(p.bid, arr=LAM(lambda k: ite(band(le(p.off, k), lt(k, add(p.off, cnt))), order_stat(cnt, sub(k, p.off), src), sel(arr, k))))
            return None
        if bt == 'Variant' and name == 'operator int':
            v = self.eval(st, base)
            if isinstance(v, T) and v.sort == 'I':
                for x in [v] + list(v.args):       # a position chosen by a shuffle lies in the list
                    if isinstance(x, T) and x.op == 'app' and x.args[0] == '$shuffle': st.assume(le(ZERO, x), lt(x, x.args[2]))
                return v
        if bt == 'RandomPCG' and name in ('randomize', 'seed'): return None
        if bt in RSTRUCTS and name in ('operator Vector2i', 'operator Vector3i'):
            v = self.eval(st, base)
            if isinstance(v, Struct): return Struct('S%d' % len(v.f), {f: r2i(x) for f, x in v.f.items()})
        raise Unsupported('method %s::%s' % (bt, name))

    def container_method(self, st, n, c, base, bt, name, argn):
        v = self.read(st, self.lvalue(st, base), n) if not c.get('isArrow') else self.eval(st, base)
        if isinstance(v, Ptr):
            if name == 'ptr': return v
            if name == 'release': return None
            raise Unsupported('accessor ' + name)
        if not isinstance(v, O): raise Unsupported('container %r' % (v,))
        p = st.getf(v.oid, 'data'); b = st.bufs[p.bid]
        if name in ('size', 'length'): return b.len
        if name == 'empty' or name == 'is_empty': return eq(b.len, ZERO)
        if name in ('ptr', 'ptrw', 'write', 'read', 'data'): return p
        if name == 'resize':
            m = self.num(st, self.eval(st, argn[0]), 'I', n)
            if b.sort == 'L':
                k = self.lit(st, m)
                et = self.elem_type(st.getf(v.oid, 'type').what)
                if k is None:
                    if b.arr != () and fam(b) is None or not et.startswith('Ref<'): raise Unsupported('symbolic list size')
                    self.oblige(st, 'bounds', le(ZERO, m), n, 'size of a list')
                    st.setbuf(p.bid, len=m, arr=(UNSET,)); return None
                if fam(b) is not None or b.arr and (b.arr[0] is UNSET or isinstance(b.arr[0], Prior)): raise Unsupported('resize of a list of symbolic length')
                a = list(b.arr[:k])
                while len(a) < k:
                    d = self.default_value(st, et)
                    if d is None: raise Unsupported('list element type')
                    a.append(d)
                st.setbuf(p.bid, len=I(k), arr=tuple(a)); return None
            unin = tm.var(st.new('uninit'), 'A' + b.sort)
            kk = fresh('k', 'I')
            if bt.startswith('std::vector'): st.setbuf(p.bid, len=m, arr=mk_lam(kk, ite(lt(kk, b.len), sel(b.arr, kk), num(0, b.sort))))
            else: st.setbuf(p.bid, len=m, arr=mk_lam(kk, ite(lt(kk, b.len), sel(b.arr, kk), sel(unin, kk))))
            return None
        if name == 'shuffle' and bt == 'Array':
            if '$rng' not in st.objs: raise Unsupported('random order')
            self.asm_notes.add('Array::shuffle (sfw) reorders the elements: element k afterwards is a former element, $shuffle(draw, n, k) in [0, n), assumed; that no element is repeated is not stated')
            d = st.getf('$rng', 'drawn'); st.setf('$rng', 'drawn', add(d, ONE)); arr, ln = b.arr, b.len
            st.setbuf(p.bid, arr=LAM(lambda k: sel(arr, uf('$shuffle', 'I', d, ln, k)))); return None
        if name in ('push_back', 'append'):
            x = self.eval(st, argn[0])
            if b.sort == 'L':
                if fam(b) is not None or b.arr and (b.arr[0] is UNSET or isinstance(b.arr[0], Prior) and len(b.arr) > 1): raise Unsupported('append to a list of symbolic length')
                st.setbuf(p.bid, len=add(b.len, ONE), arr=b.arr + (x,)); return None
            x = self.num(st, x, b.sort, n)
            st.setbuf(p.bid, len=add(b.len, ONE), arr=store(b.arr, b.len, x)); return None
        if name == 'clear':
            st.setbuf(p.bid, len=ZERO, arr=() if b.sort == 'L' else b.arr); return None
        if name in ('set',):
            i = self.num(st, self.eval(st, argn[0]), 'I', n)
            self.write_elem(st, Ptr(p.bid, add(p.off, i)), self.eval(st, argn[1]), n); return None
        if name in ('get',):
            i = self.num(st, self.eval(st, argn[0]), 'I', n)
            return self.read_elem(st, Ptr(p.bid, add(p.off, i)), n)
        if name == 'fill':
            x = self.num(st, self.eval(st, argn[0]), b.sort, n)
            st.setbuf(p.bid, arr=LAM(lambda k: x)); return None
        raise Unsupported('container method ' + name)

    def builtin_operator(self, st, n, name, argn, want_lv):
        t0 = strip_type(qtype(argn[0])).rstrip('*').strip()
        if name == 'operator=':
            lv = self.lvalue(st, argn[0])
            v = self.eval(st, argn[1])
            if t0.startswith('Ref<'):
                if isinstance(v, Ptr) and v.bid is None: v = NULLO
                if not isinstance(v, O): raise Unsupported('Ref assignment from %r' % (v,))
                self.write(st, lv, v, n); return Alias(lv) if lv[0] != 'val' else v
            if t0 in STRUCTS:
                self.write(st, lv, v, n); return Alias(lv)
            if t0.startswith(CONTAINERS):
                o = self.read(st, lv, n)
                if isinstance(o, O) and isinstance(v, O):
                    b = st.bufs[st.getf(v.oid, 'data').bid]
                    st.setbuf(st.getf(o.oid, 'data').bid, len=b.len, arr=b.arr)
                    return Alias(lv)
            if t0 == 'Variant' and lv[0] == 'elem':
                if not isinstance(v, T) or v.sort != 'I': raise Unsupported('element of an Array')
                self.write(st, lv, v, n); return Alias(lv)
            if t0.startswith(OPAQUE_T): return Opaque(t0)
            raise Unsupported('operator= on ' + t0)
        if t0.startswith('Ref<'):
            v = self.read(st, self.lvalue(st, argn[0]), n)
            if name in ('operator->', 'operator*'):
                return v
            if name in ('operator==', 'operator!='):
                w = self.eval(st, argn[1])
                if isinstance(w, Ptr) and w.bid is None: w = NULLO
                return TRUE if (v == w) == (name == 'operator==') else FALSE
            raise Unsupported('Ref ' + name)
        if t0 in STRUCTS:
            x = self.read(st, self.lvalue(st, argn[0]), n)
            y = self.read(st, self.lvalue(st, argn[1]), n) if len(argn) > 1 else None
            if name in ('operator==', 'operator!=') and isinstance(x, Struct) and isinstance(y, Struct):
                e = band(*[eq(x.f[f], y.f[f]) for f in x.f])
                return e if name == 'operator==' else bnot(e)
            if name in ('operator+', 'operator-', 'operator*') and isinstance(x, Struct):
                op = {'operator+': add, 'operator-': sub, 'operator*': mul}[name]
                if isinstance(y, Struct): return Struct(x.name, {f: op(x.f[f], y.f[f]) for f in x.f})
                if isinstance(y, T) and y.sort == 'I' : return Struct(x.name, {f: op(x.f[f], y) for f in x.f})
            raise Unsupported('struct ' + name)
        if t0.startswith(MAPS) and name == 'operator[]':
            m = self.read(st, self.lvalue(st, argn[0]), n)
            if not isinstance(m, O) or m.oid is None: raise Unsupported('map %r' % (m,))
            return Alias(self.map_at(st, m, self.eval(st, argn[1]), n))
        if t0.startswith('VectorWriteProxy<') and name == 'operator[]':
            m = argn[0]
            while m['kind'] in ('ImplicitCastExpr', 'ParenExpr'): m = m['inner'][0]
            if m['kind'] != 'MemberExpr' or m.get('name') != 'write': raise Unsupported('write proxy')
            b = m['inner'][0]
            v = self.eval(st, b) if m.get('isArrow') else self.read(st, self.lvalue(st, b), n)
            if not isinstance(v, O) or v.oid is None: raise Unsupported('write proxy')
            i = self.num(st, self.eval(st, argn[1]), 'I', n); p = st.getf(v.oid, 'data')
            return Alias(('elem', Ptr(p.bid, add(p.off, i))))
        if t0.startswith(CONTAINERS) or '::Read' in t0 or '::Write' in t0:
            v = self.read(st, self.lvalue(st, argn[0]), n)
            if name == 'operator[]':
                i = self.num(st, self.eval(st, argn[1]), 'I', n)
                p = v if isinstance(v, Ptr) else st.getf(v.oid, 'data')
                return Alias(('elem', Ptr(p.bid, add(p.off, i))))
            raise Unsupported('container ' + name)
        raise Unsupported('operator %s on %s' % (name, t0))

CMP_EPSILON = num(Fraction(1, 100000), 'R')
def rabs(v): return ite(le(RZERO, v), v, neg(v))
def approx_eq(a, b, tol=None):
    if tol is None:
        t = mul(CMP_EPSILON, rabs(a))
        tol = ite(lt(t, CMP_EPSILON), CMP_EPSILON, t)
    return bor(eq(a, b), lt(rabs(sub(a, b)), tol))
