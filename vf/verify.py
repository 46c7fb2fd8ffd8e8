"""Checks one function of /repo against its contract: every path of the body, for all inputs."""
import os, time, itertools, traceback
from .term import *
from . import term as tm
from .state import *
from .exec import Executor, sort_of, STRUCTS, CONTAINERS, OPAQUE_T
from .cpp import qtype, strip_type
from .spec import Contract, SpecCtx, View
from .prover import Prover, STATS
from . import prover as pv, refute

CLS3 = ('MLPPVector', 'MLPPMatrix', 'MLPPTensor3')

class PRes:
    """one proof obligation and what became of it"""
    __slots__ = ('what', 'status', 'detail', 'where', 'point')
    def __init__(self, what, status, detail='', where='', point=None):
        self.what = what; self.status = status; self.detail = detail; self.where = where; self.point = point
    def __repr__(self): return 'PRes(%s: %s)' % (self.what, self.status)

class CaseRes:
    def __init__(self, name): self.name = name; self.obls = []; self.paths = 0; self.spec_paths = 0; self.error = None; self.matched = set(); self.skipped = False
    @property
    def ok(self): return self.error is None and all(o.status == 'proved' for o in self.obls)

class FnRes:
    def __init__(self, con):
        self.con = con; self.cases = []; self.error = None; self.time = 0; self.used = {}; self.inlined = {}; self.notes = set(); self.stats = {}
    @property
    def ok(self): return self.error is None and any(not c.skipped for c in self.cases) and all(c.ok for c in self.cases)
    def failures(self):
        out = []
        if self.error: out.append(('error', self.error))
        for c in self.cases:
            if c.error: out.append((c.name, c.error))
            for o in c.obls:
                if o.status != 'proved': out.append((c.name, '%s [%s] %s' % (o.what, o.status, o.where)))
        return out

def resolve(prog, con):
    """mangled name of the function the contract is about"""
    ms = prog.byname.get(con.name.split('#')[0], [])
    if con.sig is not None:
        want = con.sig
        r = []
        for m in ms:
            fn = prog.funcs[m][1]
            ps = [strip_type(qtype(p)) for p in fn['_params']]
            if callable(want):
                if want(fn): r.append(m)
            elif isinstance(want, int):
                if len(ps) == want: r.append(m)
            else:
                if ps == [w.strip() for w in want.split(',')] or (want == '' and not ps): r.append(m)
        ms = r
    if len(ms) != 1: return None, 'contract %s matches %d functions' % (con.name, len(ms))
    return ms[0], None

# ------------------------------------------------------------------ initial states
def init_obj(st, cls, name, dims=None, null=False):
    """a container object satisfying the representation invariant"""
    if cls == 'MLPPVector':
        n = I(dims[0]) if dims else tm.var(name + '.n', 'I')
        shape = (n,); size = n; ln = n
    elif cls == 'MLPPMatrix':
        w, h = (I(dims[0]), I(dims[1])) if dims else (tm.var(name + '.w', 'I'), tm.var(name + '.h', 'I'))
        shape = (w, h); size = Struct('S2', {'x': w, 'y': h}); ln = mul(w, h)
    else:
        w, h, d = [I(x) for x in dims] if dims else [tm.var(name + s, 'I') for s in ('.w', '.h', '.d')]
        shape = (w, h, d); size = Struct('S3', {'x': w, 'y': h, 'z': d}); ln = mul(mul(w, h), d)
    for s in shape: st.assume(le(ZERO, s))
    bid = name + '.buf'
    st.bufs[bid] = Buf(ln, tm.var(name + '.arr', 'AR'), TRUE, 'R')
    oid = name
    st.objs[oid] = Obj(cls, {'_size': size, '_data': Ptr(bid)})
    return O(oid)

def ref_class(t):
    t = strip_type(t)
    if t.startswith('Ref<'): return t[4:-1].strip()
    return None

class Setup:
    """a symbolic pre-state for one aliasing case"""
    def __init__(self): self.st = State(); self.this = None; self.args = []; self.desc = ''; self.pinned = set(); self.inputs = []; self.enums = {}

def enum_cases(prog, con, mn):
    """list of dicts param index -> 'null' | 'obj' | ('same', j)   (j = -1 is this)"""
    tu, fn = prog.funcs[mn]
    cls = fn.get('_cls')
    refs = []
    for i, p in enumerate(fn['_params']):
        t = qtype(p)
        c = ref_class(t)
        if c: refs.append((i, c))
    if con.cases is not None:
        return con.cases
    def options(k, prev):
        i, c = refs[k]
        o = ['obj', 'null']
        if cls == c and con.opts.get('alias', True): o.append(('same', -1))
        if con.opts.get('alias', True):
            for j, c2 in prev:
                if c2 == c: o.append(('same', j))
        return o
    full = len(refs) <= 2 or con.opts.get('full_cases')
    out = []
    if full:
        def rec(k, cur):
            if k == len(refs): out.append(dict(cur)); return
            for o in options(k, refs[:k]):
                if isinstance(o, tuple) and o[1] >= 0 and cur.get(o[1]) != 'obj': continue
                cur[refs[k][0]] = o
                rec(k + 1, cur)
                del cur[refs[k][0]]
        rec(0, {})
    else:
        base = {i: 'obj' for i, c in refs}
        out.append(dict(base))
        for k in range(len(refs)):
            for o in options(k, refs[:k])[1:]:
                d = dict(base); d[refs[k][0]] = o; out.append(d)
    return out

def make_setup(prog, con, mn, case, dims=None, ints=None):
    """dims: {name: tuple} literal shapes;  ints: {name: int} literal integer parameters"""
    tu, fn = prog.funcs[mn]
    s = Setup(); st = s.st
    dims = dims or {}; ints = ints or {}
    cls = fn.get('_cls')
    static = fn.get('storageClass') == 'static' or fn['kind'] == 'FunctionDecl'
    desc = []
    if cls and not static:
        s.this = make_this(prog, con, st, cls, fn, dims, ints, s)
        s.inputs.append(('this', cls, s.this))
    vals = {}
    for i, p in enumerate(fn['_params']):
        t = qtype(p); name = p.get('name') or 'arg%d' % i
        c = ref_class(t)
        if c:
            o = case.get(i, 'obj')
            if o == 'null': v = NULLO; desc.append('%s=null' % name)
            elif isinstance(o, tuple):
                v = s.this if o[1] == -1 else vals[o[1]]
                desc.append('%s=%s' % (name, 'this' if o[1] == -1 else fn['_params'][o[1]].get('name')))
            else:
                if c in CLS3: v = init_obj(st, c, name, dims.get(name))
                else: v = make_object(prog, con, st, c, name, dims, ints, s)
            s.inputs.append((name, t, v))
        else:
            v = make_value(prog, con, st, t, name, dims, ints, s)
            s.inputs.append((name, t, v))
        vals[i] = v
        tt = t.rstrip()
        s.args.append(v)
    if con.opts.get('random'): st.objs['$rng'] = Obj('$rng', {'drawn': tm.var('$drawn', 'I')})
    s.desc = ', '.join(desc) or 'distinct'
    s.pinned |= set(st.objs) | set(st.bufs)
    return s

def make_value(prog, con, st, t, name, dims, ints, s):
    b = strip_type(t).rstrip()
    so = sort_of(t)
    if so:
        if so == 'I' and name in ints: return I(ints[name])
        if so == 'B' and name in ints: return TRUE if ints[name] else FALSE
        v = tm.var(name, so)
        if so == 'I':
            if b in ('uint8_t', 'unsigned char'): st.assume(le(ZERO, v), lt(v, I(256)))
            elif b.startswith('unsigned') or b in ('size_t', 'uint32_t', 'uint64_t', 'uint'): st.assume(le(ZERO, v))
        return v
    if b in STRUCTS:
        f = {}
        for k in STRUCTS[b]:
            n = '%s.%s' % (name, k)
            f[k] = I(ints[n]) if n in ints else tm.var(n, 'I')
        return Struct('S%d' % len(f), f)
    if b.startswith(CONTAINERS):
        es = Executor.elem_sort(None, b)
        if es == 'L':
            c = ref_class(Executor.elem_type(None, b))
            if c not in CLS3: raise Unsupported('parameter of type ' + b)
            nd = {'MLPPVector': 1, 'MLPPMatrix': 2, 'MLPPTensor3': 3}[c]
            if name in dims:        # (length, shape of the first element, shape of the others)
                n, d = dims[name][0], dims[name][1:]
                arr = tuple(init_obj(st, c, '%s[%d]' % (name, i), d[:nd] if i == 0 else d[nd:]) for i in range(n))
                ln = I(n)
            else:
                # contract option lists: parameter -> 'uniform' (all elements of one shape) or the parameter whose elements have the same shapes
                how = (con.opts.get('lists') or {}).get(name)
                k = fresh('k', 'I'); j = fresh('k', 'I')
                ln = tm.var(name + '.n', 'I'); st.assume(le(ZERO, ln))
                src = name if how in (None, 'uniform') else how
                uni = how == 'uniform' or (con.opts.get('lists') or {}).get(src) == 'uniform'
                arr = (Fam(c, k, [tm.var('%s.%s' % (src, x), 'I') if uni else uf('$%s_%s' % (src, x), 'I', k) for x in 'whd'[:nd]], mk_lam(j, uf('$%s_c' % name, 'R', k, j))),)
                if uni:
                    for x in 'whd'[:nd]: st.assume(le(ZERO, tm.var('%s.%s' % (src, x), 'I')))
            st.bufs[name + '.buf'] = Buf(ln, arr, TRUE, 'L')
            st.objs[name] = Obj('$Vec', {'data': Ptr(name + '.buf'), 'type': Opaque(b)})
            return O(name)
        n = I(dims[name][0]) if name in dims else tm.var(name + '.n', 'I')
        st.assume(le(ZERO, n))
        st.bufs[name + '.buf'] = Buf(n, tm.var(name + '.arr', 'A' + es), TRUE, es)
        st.objs[name] = Obj('$Vec', {'data': Ptr(name + '.buf'), 'type': Opaque(b)})
        return O(name)
    if '(*)' in b or 'std::function' in b:
        return FnPtr('$user_' + name)
    if b.endswith('*'):
        c = b[:-1].replace('const', '').strip()
        es = sort_of(c)
        if es in ('I', 'R'):
            n = I(dims[name][0]) if name in dims else tm.var(name + '.n', 'I')
            st.assume(le(ZERO, n))
            st.bufs[name + '.buf'] = Buf(n, tm.var(name + '.arr', 'A' + es), TRUE, es)
            return Ptr(name + '.buf')
    if b in CLS3: return init_obj(st, b, name, dims.get(name))
    if b in prog.classes: return make_object(prog, con, st, b, name, dims, ints, s)
    if b.startswith(OPAQUE_T): return Opaque(b)
    e = prog.enums_types.get(b.split('::')[-1])
    if '::' in b or e is not None:      # enumeration
        if name in ints: return I(ints[name])
        if e: s.enums[name] = sorted(e)
        return tm.var(name, 'I')
    raise Unsupported('parameter type ' + t)

def make_this(prog, con, st, cls, fn, dims, ints, s):
    if cls in CLS3: return init_obj(st, cls, 'this', dims.get('this'))
    return make_object(prog, con, st, cls, 'this', dims, ints, s)

def make_object(prog, con, st, cls, name, dims, ints, s):
    ex = Executor(prog, None)
    spec = (con.opts.get('fields') or {})
    f = {}
    for fname, t, init in ex.class_fields(cls):
        q = t.get('desugaredQualType', t['qualType'])
        fn_ = '%s.%s' % (name, fname)
        o = spec.get(fname)
        c = ref_class(q)
        if o == 'null': f[fname] = NULLO; continue
        if o == 'opaque': f[fname] = Opaque(q); continue
        if isinstance(o, str) and o.startswith('same:'): f[fname] = f[o[5:]]; continue
        if isinstance(o, int): f[fname] = I(o) if sort_of(q) == 'I' else num(o, 'R') if sort_of(q) == 'R' else (TRUE if o else FALSE); continue
        try:
            if c:
                f[fname] = init_obj(st, c, fn_, dims.get(fn_)) if c in CLS3 else make_object(prog, con, st, c, fn_, dims, ints, s)
            elif strip_type(q) in CLS3: f[fname] = init_obj(st, strip_type(q), fn_, dims.get(fn_))
            else: f[fname] = make_value(prog, con, st, q, fn_, dims, ints, s)
        except Unsupported:
            f[fname] = Opaque(q)
    st.objs[name] = Obj(cls, f)
    return O(name)

# ------------------------------------------------------------------ verification of one function
class Verifier:
    def __init__(self, prog, contracts, bymn):
        self.prog = prog; self.contracts = contracts; self.bymn = bymn

    def verify(self, con, budget=200.0, only_case=None):
        res = FnRes(con)
        t0 = time.time()
        mn, err = resolve(self.prog, con)
        s0 = dict(STATS)
        if err: res.error = err; return res
        try:
            cases = enum_cases(self.prog, con, mn)
            for k, case in enumerate(cases):
                if only_case is not None and k != only_case: continue
                left = budget - (time.time() - t0)
                res.cases.append(self.verify_case(con, mn, case, max(10.0, left), res))
        except Unsupported as e:
            res.error = 'unsupported: %s' % e
        except RecursionError:
            res.error = 'unsupported: recursion limit'
        res.time = time.time() - t0
        res.stats = {k: STATS[k] - s0.get(k, 0) for k in STATS}
        return res

    def spec_outcomes(self, prover, con, setup, this, args, ctr=1000000, literal=False, unroll=False):
        """run the contract on the pre-state"""
        ex = Executor(self.prog, prover, {}, setup.pinned)
        ex.unroll = unroll; self.iter_recs = ex.iter_recs
        ex.literal_only = literal; ex.opaque = con.opts.get('opaque', False)
        st = setup.st.copy(); st.ctr = ctr
        reqs = []
        nb = len(st.br)
        def run(s):
            c = SpecCtx(ex, s, con=con)
            c.reqs = reqs; c.nb = nb
            return ('return', c.run(con, this, args))
        return ex.explore(st, run), reqs

    def verify_case(self, con, mn, case, budget, res, dims=None, ints=None):
        lits = con.opts.get('literals')
        if dims is not None or not lits: return self.verify_one(con, mn, case, budget, res, dims, ints)
        # a case distinction on an integer parameter: each listed value, then all the others
        (name, vals), = lits.items()
        t0 = time.time(); out = None
        for v in list(vals) + [None]:
            r = self.verify_one(con, mn, case, max(5.0, budget - (time.time() - t0)), res, None, None if v is None else {name: v}, [] if v is not None else [ne(tm.var(name, 'I'), I(x)) for x in vals])
            if out is None or out.skipped: out = r
            elif not r.skipped:
                out.obls += r.obls; out.error = out.error or r.error; out.paths += r.paths; out.spec_paths += r.spec_paths
                out.matched |= {k + 100 * len(out.matched) for k in r.matched}
        return out

    def verify_one(self, con, mn, case, budget, res, dims=None, ints=None, assume=()):
        prog = self.prog
        prover = Prover()
        setup = make_setup(prog, con, mn, case, dims, ints)
        for f in assume: setup.st.assume(f)
        cr = CaseRes(setup.desc)
        deadline = time.time() + budget
        lit = dims is not None
        tm.NAMED.clear()
        try:
            specs, reqs = self.spec_outcomes(prover, con, setup, setup.this, setup.args, literal=lit)
            cr.spec_paths = len(specs)
            if not specs:
                cr.skipped = True; return cr
            st0 = setup.st.copy()
            st0.assume(*dict.fromkeys(reqs))
            contracts = {m: c for m, c in self.bymn.items() if (m != mn or c.opts.get('recursive')) and not c.opts.get('inline')}
            ex = Executor(prog, prover, contracts, setup.pinned, deadline, literal_only=lit)
            ex.opaque = con.opts.get('opaque', False)
            ex.invariants = con.opts.get('invariants', ())
            ex.iter_recs = list(self.iter_recs)
            tu, fn = prog.funcs[mn]
            name = ex.fname(mn)
            def run(s):
                a = list(setup.args)
                return ex.run_body(s, tu, fn, name, setup.this, self.bind_args(s, fn, a))
            while True:
                ex.frames = []
                try: outs = ex.explore(st0, run); break
                except Thaw as e:
                    site = ex.fzsite.get(e.ident)
                    if os.environ.get('VF_TRACE'): print('thaw', e.ident, site, ex.thaw)
                    if site is None or site in ex.thaw: raise Unsupported(str(e))
                    old = ex
                    ex = Executor(prog, prover, contracts, setup.pinned, deadline, literal_only=lit)
                    ex.opaque, ex.invariants, ex.iter_recs = old.opaque, old.invariants, list(self.iter_recs)
                    ex.thaw = old.thaw | {site}
            outs = ex.merge_list(st0, outs) if len(outs) > 12 else outs
        except Prune:
            cr.error = 'the precondition is contradictory'; return cr
        except Unsupported as e:
            cr.error = 'unsupported: %s' % e; return cr
        except RecursionError:
            cr.error = 'unsupported: recursion limit'; return cr
        except (AttributeError, TypeError, KeyError, AssertionError, ValueError, IndexError, ZeroDivisionError) as e:
            if os.environ.get('VF_TRACE'): raise
            cr.error = 'unsupported: %s: %s' % (type(e).__name__, e); return cr
        res.used.update(ex.used_contracts); res.inlined.update(ex.inlined); res.notes |= ex.asm_notes
        cr.paths = len(outs)
        for _ in range(ex.discharged): cr.obls.append(PRes('safety', 'proved'))
        for o in ex.obls:
            left = max(2.0, min(30.0, deadline - time.time()))
            r = prover.prove(o.facts, o.goal, left)
            cr.obls.append(self.pres('%s: %s' % (o.kind, o.what), r, o.where, prover))
        init = setup.st
        for (s, r) in outs:
            rv = r[1] if isinstance(r, tuple) else None
            hit = False
            for k, (t, tr) in enumerate(specs):
                facts = list(dict.fromkeys(s.facts + t.facts))
                if prover.quick(tuple(facts), FALSE): continue
                hit = True; cr.matched.add(k)
                self.compare(cr, prover, setup, facts, s, rv, t, tr[1], deadline)
                if time.time() > deadline:
                    cr.error = 'time budget exhausted'; return cr
            if not hit and prover.prove(s.facts, FALSE, 5.0) != 'valid':
                cr.obls.append(PRes('no case of the contract applies to this path', 'unknown', where=', '.join(show(f) for f in s.br[len(init.br):])))
        return cr

    def bind_args(self, st, fn, args):
        """containers passed by value are copied"""
        ex = Executor(self.prog, None)
        return [ex.copy_value(st, v) if isinstance(v, O) and not qtype(p).rstrip().endswith(('&', '*')) and strip_type(qtype(p)).startswith(CONTAINERS) else v for p, v in zip(fn['_params'], args)]

    def pres(self, what, r, where, prover, detail=''):
        if r == 'valid': return PRes(what, 'proved', where=where)
        lf = getattr(prover, 'last_fail', None)
        d = detail
        if lf is not None:
            d += '\n  facts: ' + '; '.join(show(f) for f in lf[0]) + '\n  goal: ' + show(lf[1])
        pt = None
        if r == 'sat' and lf is not None and refute.LAST[0] is lf[0]: pt = {k: v for k, v in refute.LAST[1].items() if isinstance(v, int) and not isinstance(v, bool)}
        return PRes(what, 'refuted' if r == 'sat' else 'unknown', d[:4000], where, pt)

    def goal(self, cr, prover, facts, g, what, deadline):
        if g is TRUE:
            cr.obls.append(PRes(what, 'proved')); return
        left = max(2.0, min(40.0, deadline - time.time()))
        r = prover.prove(facts, g, left)
        if r == 'unknown' or r == 'sat' and refute.LAST[0] is not getattr(prover, 'last_fail', (0,))[0]:
            for x in tm.conjuncts(g):
                if refute.search(facts, x, 12.0): prover.last_fail = (facts, x); r = 'sat'; break
        cr.obls.append(self.pres(what, r, '', prover))

    def compare(self, cr, prover, setup, facts, s, rv, t, trv, deadline):
        anym = {}
        pinned = setup.pinned
        pairs = {}
        ctx = (cr, prover, facts, deadline, s, t, anym, pairs, pinned)
        for oid in setup.st.objs:
            self.cmp_obj(ctx, oid, oid, 'after the call, %s' % oid)
        for bid in setup.st.bufs:
            if bid in s.bufs and not any(isinstance(v, Ptr) and v.bid == bid for o in setup.st.objs.values() for v in o.f.values()):
                # raw pointer parameter
                self.cmp_buf(ctx, Ptr(bid), Ptr(bid), 'memory at %s' % bid)
        self.cmp_val(ctx, rv, trv, 'result')

    def cmp_val(self, ctx, a, b, what):
        cr, prover, facts, deadline, s, t, anym, pairs, pinned = ctx
        if b is None: return            # nothing promised
        if a is UNDEF: 
            cr.obls.append(PRes(what + ' is initialised', 'refuted')); return
        if isinstance(b, T):
            if is_any(b): return
            if not isinstance(a, T): cr.obls.append(PRes(what + ' is a number', 'unknown', repr(a))); return
            if a.sort != b.sort:
                if b.sort == 'B': a = ne(a, num(0, a.sort))
                else: a = lift_to(a, b.sort)
            g = eq(a, b) if a.sort != 'B' else iff(a, b)
            self.goal(cr, prover, facts, g, what, deadline); return
        if isinstance(b, Struct):
            if not isinstance(a, Struct): cr.obls.append(PRes(what, 'unknown', repr(a))); return
            for k in b.f: self.cmp_val(ctx, a.f[k], b.f[k], '%s.%s' % (what, k))
            return
        if isinstance(b, O):
            if not isinstance(a, O):
                cr.obls.append(PRes(what + ' is an object', 'unknown', repr(a))); return
            if b.oid is None or a.oid is None:
                cr.obls.append(PRes('%s is %snull' % (what, '' if b.oid is None else 'not '), 'proved' if a.oid == b.oid else 'refuted')); return
            pre = set(pinned)
            if b.oid in pre or a.oid in pre:
                cr.obls.append(PRes('%s is the object %s' % (what, b.oid if b.oid in pre else 'freshly made'), 'proved' if a.oid == b.oid else 'refuted'))
                return
            self.cmp_obj(ctx, a.oid, b.oid, what); return
        if isinstance(b, Ptr):
            if isinstance(a, Ptr) and (a.bid in pinned or b.bid in pinned or a.bid is None or b.bid is None):
                if a.bid == b.bid: self.goal(cr, prover, facts, eq(a.off, b.off), what, deadline)
                else: cr.obls.append(PRes(what, 'refuted', '%r vs %r' % (a, b)))
                return
            if isinstance(a, Ptr): self.cmp_buf(ctx, a, b, what); return
            cr.obls.append(PRes(what, 'unknown', repr(a))); return
        if isinstance(b, FnPtr):
            cr.obls.append(PRes(what + ' is the function ' + b.name, 'proved' if isinstance(a, FnPtr) and a.name == b.name else 'refuted', repr(a))); return
        if isinstance(b, Opaque) or b is UNDEF:
            return
        cr.obls.append(PRes(what, 'unknown', 'cannot compare %r' % (b,)))

    def cmp_obj(self, ctx, oa, ob, what):
        cr, prover, facts, deadline, s, t, anym, pairs, pinned = ctx
        if (oa, ob) in pairs: return
        for (x, y) in pairs:
            if x == oa and y != ob and oa not in pinned:
                cr.obls.append(PRes(what + ': results are separate objects', 'refuted')); return
        pairs[(oa, ob)] = 1
        a = s.objs.get(oa); b = t.objs.get(ob)
        if a is None or b is None:
            return
        if a.cls != b.cls: cr.obls.append(PRes(what + ' has class ' + b.cls, 'refuted')); return
        if a.cls in CLS3:
            self.cmp_container(ctx, oa, ob, a, b, what); return
        if a.cls == '$Vec':
            pa, pb = a.f['data'], b.f['data']
            self.cmp_buf(ctx, pa, pb, what, own=True); return
        for n in b.f:
            if n in a.f:
                if isinstance(b.f[n], O) and isinstance(a.f[n], O) and a.f[n] != b.f[n]:
                    self.cmp_val(ctx, a.f[n], b.f[n], '%s.%s' % (what, n))
                elif a.f[n] != b.f[n] or isinstance(b.f[n], O):
                    self.cmp_val(ctx, a.f[n], b.f[n], '%s.%s' % (what, n))

    def cmp_container(self, ctx, oa, ob, a, b, what):
        cr, prover, facts, deadline, s, t, anym, pairs, pinned = ctx
        sa, sb = a.f['_size'], b.f['_size']
        # size
        if isinstance(sb, Struct):
            for k in sb.f: self.goal(cr, prover, facts, eq(sa.f[k], sb.f[k]), '%s: size.%s' % (what, k), deadline)
            ln = ONE
            for k in sa.f: ln = mul(ln, sa.f[k])
        else:
            if sa is UNDEF: cr.obls.append(PRes(what + ': size is initialised', 'refuted')); return
            self.goal(cr, prover, facts, eq(sa, sb), '%s: size' % what, deadline)
            ln = sa
        pa, pb = a.f['_data'], b.f['_data']
        # representation invariant of the implementation's object
        if pa.bid is None:
            self.goal(cr, prover, facts, le(ln, ZERO), '%s: storage is allocated' % what, deadline)
            self.goal(cr, prover, facts, le(t.bufs[pb.bid].len, ZERO) if pb.bid is not None else TRUE, '%s: contents' % what, deadline)
            return
        ba = s.bufs[pa.bid]
        g = band(eq(pa.off, ZERO), ba.alive, eq(ba.len, ln))
        if g is not TRUE and not prover.quick(tuple(facts), g):
            g = bor(band(eq(pa.off, ZERO), eq(ba.len, ln), bor(ba.alive, eq(ln, ZERO))))
        self.goal(cr, prover, facts, g, '%s: storage matches the size' % what, deadline)
        n = count_refs(s, 'b', pa.bid)
        if n > 1:
            # dead locals may still be in env; only objects count
            n = sum(1 for o in s.objs.values() for v in o.f.values() if isinstance(v, Ptr) and v.bid == pa.bid)
        cr.obls.append(PRes('%s: storage is not shared' % what, 'proved' if n <= 1 else 'refuted'))
        self.cmp_buf(ctx, pa, pb, what, ln, shape=sb if isinstance(sb, Struct) else None)

    def cmp_buf(self, ctx, pa, pb, what, ln=None, own=False, shape=None):
        cr, prover, facts, deadline, s, t, anym, pairs, pinned = ctx
        if pb.bid is None or pa.bid is None:
            la = s.bufs[pa.bid].len if pa.bid is not None else ZERO
            lb = t.bufs[pb.bid].len if pb.bid is not None else ZERO
            self.goal(cr, prover, facts, band(le(la, ZERO), le(lb, ZERO)), what + ': length', deadline); return
        ba, bb = s.bufs[pa.bid], t.bufs[pb.bid]
        if ln is None:
            self.goal(cr, prover, facts, eq(ba.len, bb.len), what + ': length', deadline)
            ln = ba.len
        if bb.sort == 'L':
            fa, fb = fam(ba), fam(bb)
            if UNSET in ba.arr: self.goal(cr, prover, facts, le(ba.len, ZERO), what + ': all elements are given', deadline); return
            if fa is not None and fb is not None:
                k = tm.var('e!', 'I'); (sa, ca), (sb, cb) = fa.at(k), fb.at(k)
                if fa.cls != fb.cls: cr.obls.append(PRes(what + ': element class', 'refuted')); return
                f2 = facts + [le(ZERO, k), lt(k, ba.len)]
                for x, y in zip(sa, sb): self.goal(cr, prover, f2, eq(x, y), what + ': element size', deadline)
                ln = ONE
                for x in sa: ln = mul(ln, x); f2.append(le(ZERO, x))
                s.bufs['$fa'] = Buf(ln, ca, TRUE, 'R'); t.bufs['$fb'] = Buf(ln, cb, TRUE, 'R')
                self.cmp_buf((cr, prover, f2, deadline, s, t, anym, pairs, pinned), Ptr('$fa'), Ptr('$fb'), what + ': element', ln, shape=Struct('S%d' % len(sb), dict(zip('xyz', sb))) if len(sb) > 1 else None)
                return
            if (fa is not None or fb is not None) and ba.len.op == 'num':
                ex = Executor(self.prog, prover)
                va = [ex.fam_elem(s, fa, I(i)) for i in range(int(ba.len.args[0]))] if fa else ba.arr
                vb = [ex.fam_elem(t, fb, I(i)) for i in range(int(ba.len.args[0]))] if fb else bb.arr
                if len(va) != len(vb): cr.obls.append(PRes(what + ': number of elements', 'refuted')); return
                for i, (x, y) in enumerate(zip(va, vb)): self.cmp_val(ctx, x, y, '%s[%d]' % (what, i))
                return
            if len(ba.arr) != len(bb.arr): cr.obls.append(PRes(what + ': number of elements', 'unknown')); return
            for i, (x, y) in enumerate(zip(ba.arr, bb.arr)): self.cmp_val(ctx, x, y, '%s[%d]' % (what, i))
            return
        if bb.arr.op == 'abase' and is_any_name(bb.arr.args[0]): return
        barr = bb.arr
        anys = [v for v in barr.vs if v.op == 'abase' and is_any_name(v.args[0])]
        if anys:        # unspecified contents: the contract holds with what the function left there
            for v in anys: anym.setdefault(v, ba.arr)
            barr = subst(barr, {v: anym[v] for v in anys})
            bb = Buf(bb.len, barr, bb.alive, bb.sort)
        if ba.arr is bb.arr: cr.obls.append(PRes(what + ': contents', 'proved')); return
        if ln.op == 'num':
            for i in range(int(ln.args[0])):
                self.goal(cr, prover, facts, eq(sel(ba.arr, I(i)), sel(bb.arr, I(i))), '%s: element %d' % (what, i), deadline)
            return
        if shape is not None and not any(x.op == 'num' for x in shape.f.values()):
            # element (row, column) / (slice, row, column): the cell index is i*w + j
            i, j, z = tm.var('i!', 'I'), tm.var('j!', 'I'), tm.var('z!', 'I')
            w, h = shape.f['x'], shape.f['y']
            f2 = facts + [le(ZERO, i), lt(i, h), le(ZERO, j), lt(j, w)]
            k = add(mul(i, w), j)
            if 'z' in shape.f:
                f2 += [le(ZERO, z), lt(z, shape.f['z'])]
                k = add(mul(z, mul(w, h)), k)
            left = max(2.0, min(30.0, deadline - time.time()))
            if prover.prove(f2, eq(sel(ba.arr, k), sel(bb.arr, k)), left) == 'valid':
                cr.obls.append(PRes(what + ': contents', 'proved')); return
        k = tm.var('k!', 'I')
        f2 = facts + [le(ZERO, k), lt(k, ln)]
        self.goal(cr, prover, f2, eq(sel(ba.arr, k), sel(bb.arr, k)), '%s: contents' % what, deadline)

def is_any_name(n): return isinstance(n, str) and (n.startswith('any#') or n.startswith('anyc#'))
def is_any(b): return b.op in ('var', 'bvar') and is_any_name(b.args[0])
def lift_to(a, sort):
    if sort == 'R': return i2r(a) if a.sort == 'I' else ite(a, RONE, RZERO)
    if sort == 'I': return r2i(a) if a.sort == 'R' else ite(a, ONE, ZERO)
    return a
