"""Loops: concrete unrolling where the trip count is a literal, otherwise the loop is solved:
closed forms (the inferred invariants) are derived for every location the body changes, each justified by
construction (recurrence solving) or checked inductive by the prover; the number of iterations is solved from the guard."""
from .term import *
from . import term as tm
from .state import *
from .state import rename, count_refs, merge_outcomes
from .prover import replace
from .spec import ITN
import re

class NonLiteral(Exception):
    pass

def exec_loop(ex, st, n):
    k = n['kind']
    inner = n['inner']
    if k == 'ForStmt':
        init, _, cond, inc, body = inner
        keys = []
        if init.get('kind') == 'DeclStmt':
            keys = [(ex.frame, c['id']) for c in init['inner'] if c['kind'] == 'VarDecl']
        if init.get('kind'): ex.exec_stmt(st, init)
        r = run_loop(ex, st, n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
        for x in keys: st.env.pop(x, None)
        return r
    if k == 'WhileStmt':
        return run_loop(ex, st, n, inner[-2], None, inner[-1])
    if k == 'DoStmt':
        body, cond = inner
        def first(s):
            r = ex.exec_stmt(s, body)
            if r is None or r[0] == 'continue': return None
            return r
        r = ex.sub(st, first)
        if r is not None:
            return None if r[0] == 'break' else r
        return run_loop(ex, st, n, cond, None, body)
    if k == 'CXXForRangeStmt':
        raise Unsupported('range-based for')
    raise Unsupported(k)

def _const_true(cond):
    if cond is None: return True
    c = cond
    while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'): c = c['inner'][0]
    return c['kind'] == 'CXXBoolLiteralExpr' or (c['kind'] == 'IntegerLiteral')

def run_loop(ex, st, node, cond, inc, body):
    info = {'cond': None, 'nconds': 0}
    frame = list(ex.frames); tus = list(ex.tus); calls = list(ex.calls)
    mode = {'m': 'unroll'}
    def iteration(s):
        # contexts survive nested explorations because exec pops frames to this depth only
        if cond is not None:
            c = ex.evalb(s, cond)
        else:
            c = TRUE
        info['cond'] = c; info['nconds'] += 1
        if c is not TRUE and c is not FALSE and mode['m'] == 'unroll' and not ex.literal_only:
            d = None
            raise NonLiteral()
        if not ex.branch(s, c): return ('exit',)
        r = ex.exec_stmt(s, body)
        if r is not None and r[0] in ('break', 'return'): return r
        if inc is not None: ex.eval(s, inc, discard=True)
        return ('next',)
    def producer(s0):
        recs = iterations(ex, s0, node)
        if recs:
            mode['m'] = 'sym'
            return iterated(ex, s0, iteration, info, node, recs)
        ct = _const_true(cond)
        if ct and not ex.literal_only:
            try:
                n0 = len(ex.obls); d0 = ex.discharged
                mode['m'] = 'sym'
                return symbolic(ex, s0, iteration, info, node)
            except Unsupported as e:
                del ex.obls[n0:]; ex.discharged = d0
                mode['m'] = 'unroll'
                return unroll(ex, s0, iteration, node, 14)
        n0 = len(ex.obls); d0 = ex.discharged
        try:
            mode['m'] = 'unroll'
            return unroll(ex, s0, iteration, node, MAXU)
        except NonLiteral:
            del ex.obls[n0:]; ex.discharged = d0
        mode['m'] = 'sym'
        return symbolic(ex, s0, iteration, info, node)
    return sub_list(ex, st, producer)

# ---- loops whose effect the contract states step by step
def iterations(ex, s0, node):
    if not ex.iter_recs: return None
    key = ex.iter_ctx[0] + (s0.env.get(ITN, 0),)
    recs = [r for r in ex.iter_recs if r.key == key]
    if not recs or not touches(node, set(f for r in recs for f in r.fields + r.derived)): return None
    return [r for r in recs if not ex.prover.quick(tuple(dict.fromkeys(s0.facts + r.entry.facts)), FALSE)]

def touches(node, names):
    """does the loop mention a field of the iterated state, or call a method of the object"""
    st = [node]
    while st:
        n = st.pop()
        if n.get('kind') == 'MemberExpr':
            if n.get('name') in names: return True
            if any(c.get('kind') == 'CXXThisExpr' or c.get('kind') == 'ImplicitCastExpr' and c['inner'][0].get('kind') == 'CXXThisExpr' for c in n.get('inner', ())) and n.get('type', {}).get('qualType') == '<bound member function type>': return True
        if n.get('kind') == 'DeclRefExpr' and '$rng' in names and 'distribution' in str(n.get('type', {}).get('qualType')): return True
        st.extend(c for c in n.get('inner', ()) if isinstance(c, dict))
    return False

def iterated(ex, s0, iteration, info, node, recs):
    key = recs[0].key; n = s0.env.get(ITN, 0); keep = ex.iter_ctx, ex.iter_recs
    res = []
    s1 = s0.copy(); s1.env[ITN] = 0
    ex.iter_ctx = (key + ('p',), ())
    try: outs = ex.merge_list(s1, ex.explore(s1, iteration))
    finally: ex.iter_ctx = keep[0]
    for s, r in outs:
        s = s.copy(); s.env[ITN] = n + 1
        if r[0] != 'next': res.append((s, None if r[0] in ('exit', 'break') else r)); continue
        rs = [x for x in recs if not ex.prover.quick(tuple(dict.fromkeys(s.facts + x.entry.facts)), FALSE)]
        more = lt(ONE, recs[0].count)
        if not rs or all(x.count is recs[0].count for x in recs) and not ex.prover.quick(s.facts, more):
            # the contract may have no more steps here: then the loop has to stop before another one
            e = s.copy(); e.assume(bnot(more)); e.env[ITN] = 0
            if not ex.prover.quick(e.facts, FALSE):
                ex.iter_ctx = (key + ('q',), ())
                try: last = ex.merge_list(e, ex.explore(e, iteration))
                finally: ex.iter_ctx = keep[0]
                for s2, r2 in last:
                    if r2[0] == 'next': raise Unsupported('the loop goes on where the contract has no more steps')
                    s2 = s2.copy(); s2.env[ITN] = n + 1
                    res.append((s2, None if r2[0] in ('exit', 'break') else r2))
            if not rs: continue
            s.assume(more)
        base = s
        for attempt in range(6):
            try:
                out = _symbolic(ex, base.copy(), iteration, info, node, spec=Steps(ex, base, rs, n))
                break
            except Privatise as p:
                base = base.copy(); privatise(ex, base, p.loc)
        else: raise Unsupported('reference pattern in a loop')
        for s2, r2 in out:
            s2.env[ITN] = n + 1
            res.append((s2, r2))
    return res

class Steps:
    """the iterated state of the contract at the head of the loop"""
    def __init__(self, ex, base, recs, n):
        self.ex, self.recs, self.n = ex, recs, n
        base.env[ITN] = 0
    def values(self, st, t):
        """location in the state st -> value after 1 + t steps"""
        r = self.recs[0]; h = r.head(self.ex, t); out = {}
        for f in r.fields + r.derived: out[r.loc(st, f)] = getloc(h, r.loc(h, f))
        return out
    def start(self, base, t):
        ex = self.ex; self.t = t
        self.closed = self.values(base, t)
        if any(r.fields != self.recs[0].fields or r.derived != self.recs[0].derived for r in self.recs): raise Unsupported('iterated state differs between cases')
        self.outs = []; self.nested = []
        for r in self.recs:
            o, nest = r.outcomes(ex.prover, t)
            self.outs.append((r, o)); self.nested += nest
        h = base.copy()
        for l, v in self.closed.items(): setloc(h, l, v)
        for r in self.recs:
            self.match(base, r, r.entry, base.facts + r.entry.facts, 'before the loop')
            hh = r.head(ex, t)
            if r is not self.recs[0] and any(getloc(hh, r.loc(hh, f)) is not self.closed[r.loc(base, f)] for f in r.fields + r.derived):
                self.match(h, r, hh, base.facts + r.entry.facts, 'loop head')
        return self.closed
    def step(self, s, extra):
        for r, outs in self.outs:
            hit = False
            for o, _ in outs:
                facts = tuple(dict.fromkeys(s.facts + extra + o.facts))
                if self.ex.prover.quick(facts, FALSE): continue
                self.match(s, r, o, facts, 'one step')
    def match(self, s, r, o, facts, what):
        from . import verify as vv
        from .exec import Oblig
        ex = self.ex
        if ex.quiet: return
        facts = tuple(dict.fromkeys(facts))
        cr = vv.CaseRes('')
        V = vv.Verifier(ex.prog, [], {})
        def goal(cr, prover, fs, g, w, deadline): ex.obls.append(Oblig('step', '', tuple(fs), g, '%s: %s' % (what, w)))
        V.goal = goal
        import time
        ctx = (cr, ex.prover, list(facts), time.time() + 60, s, o, {}, {}, ex.pinned)
        for f in r.fields + r.derived:
            if f == '$rng': V.cmp_val(ctx, s.getf('$rng', 'drawn'), o.getf('$rng', 'drawn'), 'numbers drawn')
            else: V.cmp_val(ctx, s.getf(r.this.oid, f), o.getf(r.this.oid, f), f)
        for p in cr.obls:
            if p.status != 'proved': ex.obls.append(Oblig('step', '', facts, FALSE, '%s: %s' % (what, p.what)))

CLS3 = ('MLPPVector', 'MLPPMatrix', 'MLPPTensor3')
MAXU = 48

def sub_list(ex, st, producer):
    ctx = ex.stack[-1]
    key = (tuple(ctx.trace[:ctx.pos]), ctx.seq)
    ctx.seq += 1
    outs = ctx.cache.get(key)
    if outs is None:
        fd = len(ex.frames)
        outs = ex.merge_list(st, producer(st.copy()))
        ctx.cache[key] = outs
    if not outs: raise Prune()
    k = 0 if len(outs) == 1 else ex.choice(len(outs))
    s, r = outs[k]
    st.become(s)
    return r

def unroll(ex, s0, iteration, node, limit):
    live = [s0.copy()]; exits = []
    for it in range(limit + 1):
        nxt = []
        for s in live:
            outs = ex.explore(s, iteration)
            outs = ex.merge_list(s, outs)
            for s2, r in outs:
                if r[0] == 'next': nxt.append(s2)
                elif r[0] in ('exit', 'break'): exits.append((s2, None))
                else: exits.append((s2, r))
        if not nxt: return exits
        if len(nxt) > 40: raise Unsupported('too many paths in an unrolled loop')
        live = nxt
    raise Unsupported('unrolling limit')

# ------------------------------------------------------------------------------------------------ symbolic
def getloc(s, loc):
    k = loc[0]
    if k == 'e':
        v = s.env.get(loc[1], UNDEF)
        if len(loc) > 2: v = v.f[loc[2]] if isinstance(v, Struct) else UNDEF
        return v
    if k == 'f':
        v = s.objs[loc[1]].f.get(loc[2], UNDEF)
        if len(loc) > 3: v = v.f[loc[3]] if isinstance(v, Struct) else UNDEF
        return v
    b = s.bufs[loc[1]]
    return getattr(b, loc[2])
def setloc(s, loc, v):
    k = loc[0]
    if k == 'e':
        if len(loc) > 2:
            o = s.env.get(loc[1])
            s.env[loc[1]] = o.with_(loc[2], v)
        else: s.env[loc[1]] = v
    elif k == 'f':
        if len(loc) > 3: v = s.objs[loc[1]].f[loc[2]].with_(loc[3], v)
        s.setf(loc[1], loc[2], v)
    else:
        s.setbuf(loc[1], **{loc[2]: v})

def diff(h, s):
    out = []
    def cmp(prefix, x, y):
        if x is y: return
        if isinstance(x, Struct) and isinstance(y, Struct):
            for f in x.f:
                if x.f[f] is not y.f[f]: out.append(prefix + (f,))
            return
        if x == y and not isinstance(x, T): return
        out.append(prefix)
    for k, x in h.env.items():
        if k in s.env and k != ITN: cmp(('e', k), x, s.env[k])
    for oid, o in h.objs.items():
        p = s.objs.get(oid)
        if p is None or p is o: continue
        for f, x in o.f.items(): cmp(('f', oid, f), x, p.f.get(f))
    for bid, b in h.bufs.items():
        c = s.bufs.get(bid)
        if c is None or c is b: continue
        for a in ('len', 'arr', 'alive'):
            x, y = getattr(b, a), getattr(c, a)
            if x is not y and not (b.sort == 'L' and a == 'arr' and x == y): out.append(('b', bid, a))
    return out

class Privatise(Exception):
    def __init__(self, loc): self.loc = loc

def canon(ex, h, s):
    """make post-state object/buffer identities match the loop-head identities"""
    s = s.copy()
    for _ in range(30):
        hit = None
        for loc in diff(h, s):
            if loc[0] == 'b': continue
            x, y = getloc(h, loc), getloc(s, loc)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.bid != y.bid:
                if x.bid is None and y.bid is not None and y.bid not in h.bufs and loc[0] == 'f' and loc[2] == '_data': raise NoStorage(loc)
                if y.bid is None or x.bid is None or y.bid in h.bufs: raise Unsupported('pointer %r changes in a loop' % (loc,))
                if count_refs(s, 'b', y.bid) != 1 or count_refs(s, 'b', x.bid) != 0: raise Unsupported('shared storage reallocated in a loop')
                hit = ('b', x.bid, y.bid); break
            if isinstance(x, O) and isinstance(y, O) and x.oid != y.oid:
                if x.oid is None: raise Unsupported('reference initialised in a loop')
                if y.oid is None or y.oid in h.objs: raise Unsupported('reference %r re-targeted in a loop' % (loc,))
                if count_refs(s, 'o', y.oid) != 1: raise Unsupported('shared object assigned in a loop')
                if x.oid in ex.pinned or count_refs(h, 'o', x.oid) != 1: raise Privatise(loc)
                if count_refs(s, 'o', x.oid) != 0: raise Unsupported('object kept across iterations')
                if s.objs[x.oid].cls != s.objs[y.oid].cls: raise Unsupported('class')
                hit = ('o', x.oid, y.oid); break
        if hit is None: return s
        kind, old, new = hit
        if kind == 'b':
            nb = s.bufs.pop(new)
            s.bufs[old] = nb
            rename(s, 'b', {new: old})
        else:
            no = s.objs.pop(new)
            hd = h.objs[old]
            so = s.objs.get(old)
            if getattr(ex, '_private', None) and old in ex._private:
                # stand-in for the first value: it must not have been written in place
                if so is not None and so is not hd: raise Unsupported('in-place write before re-assignment in a loop')
                for v in hd.f.values():
                    if isinstance(v, Ptr) and v.bid is not None and s.bufs.get(v.bid) is not h.bufs.get(v.bid):
                        raise Unsupported('in-place write before re-assignment in a loop')
            s.objs[old] = no
            rename(s, 'o', {new: old})
            # storage of the replaced object: match field-wise
            for f, v in hd.f.items():
                w = s.objs[old].f.get(f)
                if isinstance(v, Ptr) and isinstance(w, Ptr) and v.bid != w.bid and v.bid is not None:
                    if count_refs(s, 'b', v.bid) != 0: raise Unsupported('storage kept across iterations')
                    if w.bid in h.bufs: raise Unsupported('storage shared')
                    s.bufs.pop(v.bid, None)
                    s.bufs[v.bid] = s.bufs.pop(w.bid)
                    rename(s, 'b', {w.bid: v.bid})
    raise Unsupported('canonicalisation')

class NoStorage(Exception):
    def __init__(self, loc): self.loc = loc
def privatise(ex, base, loc):
    x = getloc(base, loc)
    o = base.objs[x.oid]
    f = {}
    for k, v in o.f.items():
        if isinstance(v, Ptr) and v.bid is not None:
            b = base.bufs[v.bid]
            nb = base.new('b'); base.bufs[nb] = b
            v = Ptr(nb, v.off)
        f[k] = v
    no = base.newobj(o.cls, f)
    setloc(base, loc, no)
    if not hasattr(ex, '_private'): ex._private = set()
    ex._private.add(no.oid)

def _bodyfresh(term, ctr):
    out = []
    for v in term.vs:
        if v.op in ('var', 'bvar', 'abase'):
            m = re.search(r'#m?(\d+)$', v.args[0])
            if m and int(m.group(1)) > ctr: out.append(v)
    return out

def symbolic(ex, s0, iteration, info, node):
    base = s0.copy()
    for attempt in range(6):
        try:
            guess = ex.loop_guess.get(node.get('id'))
            if guess is not None and ex.invariants and not any(isinstance(g[3], tuple) for g in guess): guess = None
            if guess is not None:
                n0, d0, b0 = len(ex.obls), ex.discharged, base.copy()
                try:
                    return _symbolic(ex, base, iteration, info, node, guess)
                except WrongGuess:
                    del ex.obls[n0:]; ex.discharged = d0; base = b0
                    ex.loop_guess.pop(node.get('id'), None)
            n0, d0 = len(ex.obls), ex.discharged; invs = set()
            for again in range(4 + len(ex.invariants)):
                b0 = base.copy()
                try: return _symbolic(ex, b0, iteration, info, node, invs=invs)
                except TryGuess as g:
                    del ex.obls[n0:]; ex.discharged = d0
                    b0 = base.copy()
                    try: return _symbolic(ex, b0, iteration, info, node, g.guess)
                    except (WrongGuess, TryGuess, Unsupported): del ex.obls[n0:]; ex.discharged = d0
            return _symbolic(ex, base, iteration, info, node)
        except Privatise as p:
            base = base.copy()
            privatise(ex, base, p.loc)
        except NoStorage as p:       # an empty container that gets its storage in the loop: no storage is storage of length 0
            base = base.copy()
            if base.objs[p.loc[1]].f['_data'].bid is not None: raise Unsupported('pointer %r changes in a loop' % (p.loc,))
            setloc(base, p.loc, Ptr(base.newbuf(ZERO, tm.var('$none', 'AR'), 'R')))
    raise Unsupported('reference pattern in a loop')

def hav_sort(v, post):
    x = post if (v is UNDEF or not isinstance(v, T)) else v
    if isinstance(v, T) and isinstance(post, T) and v.sort != post.sort:
        return 'R' if 'R' in (v.sort, post.sort) else v.sort
    if isinstance(x, T): return x.sort
    return None

class WrongGuess(Exception): pass
class TryGuess(Exception):
    def __init__(self, guess): self.guess = guess

def _symbolic(ex, base, iteration, info, node, guess=None, invs=None, spec=None):
    """guess: what an earlier execution of the same loop found to change, and by which constant; checked, not trusted"""
    # ---- which locations change
    mod = {}         # loc -> havoc value
    lists = {}       # lists the loop fills (bid -> Fam once known)
    if guess is not None: lists = {b: None for b in ex.loop_lists.get(node.get('id'), ()) if b in base.bufs}
    t = fresh('t', 'I')
    ptrs = {}        # loc -> bid of pointers whose offset changes
    nobl = len(ex.obls)
    saved_quiet = ex.quiet
    def head(closed):
        h = base.copy()
        for loc, hv in mod.items():
            v = closed.get(loc, hv)
            if loc in ptrs: v = Ptr(ptrs[loc], v)
            setloc(h, loc, v)
        for b in lists: h.setbuf(b, arr=(Prior(b, fam(base.bufs[b]), t),))
        h.assume(le(ZERO, t))
        return h
    def run(h, quiet):
        info['nconds'] = 0
        ex.quiet = saved_quiet + (1 if quiet else 0)
        keep = ex.iter_ctx, ex.iter_recs
        if spec is not None: ex.iter_ctx, ex.iter_recs = (spec.recs[0].key + ('g',), ()), spec.nested
        try: return ex.explore(h, iteration)
        finally: ex.quiet = saved_quiet; ex.iter_ctx, ex.iter_recs = keep
    given = {}
    if spec is not None:
        base.env[ITN] = 0
        given = spec.start(base, t)
        for loc, v in given.items(): mod[loc] = fresh('h', v.sort)
    guessed = {}     # loc -> constant step taken for granted and checked below
    if guess is not None:
        for loc, so, isptr, step in guess:
            try: x = getloc(base, loc)
            except (KeyError, AttributeError): continue
            if x is None: continue
            if isptr:
                if not isinstance(x, Ptr) or x.bid is None: raise WrongGuess()
                mod[loc] = fresh('h', 'I'); ptrs[loc] = x.bid
            else:
                if not (x is UNDEF or isinstance(x, T)): raise WrongGuess()
                if isinstance(x, T) and x.sort != so: raise WrongGuess()
                if x is UNDEF and loc[0] != 'e': raise WrongGuess()
                mod[loc] = fresh('h', so)
            if step is not None and isinstance(x, (T, Ptr)): guessed[loc] = step
    for rnd in range(12 if guess is None else 0):
        h = head(given)
        outs = run(h, True)
        grew = False
        for s, r in outs:
            if r[0] != 'next': continue
            s = canon(ex, h, s)
            for loc in diff(h, s):
                if loc in mod and loc not in ptrs and not isinstance(getloc(h, loc), T): raise Unsupported('loop location')
                if loc in mod: continue
                if loc[0] == 'b' and loc[2] == 'arr' and base.bufs[loc[1]].sort == 'L':
                    if loc[1] in lists: continue
                    if base.bufs[loc[1]].arr not in ((), (UNSET,)) and fam(base.bufs[loc[1]]) is None: raise Unsupported('list modified in a loop')
                    lists[loc[1]] = None; grew = True; continue
                x, y = getloc(base, loc), getloc(s, loc)
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.bid == y.bid:
                    mod[loc] = fresh('h', 'I'); ptrs[loc] = x.bid; grew = True; continue
                so = hav_sort(x, y)
                if so is None:
                    if x is UNDEF and isinstance(y, Struct):
                        setloc(base, loc, Struct(y.name, {f: tm.var(base.new('undef'), 'I') for f in y.f})); grew = True; continue
                    raise Unsupported('location %r changes in a loop (%r -> %r)' % (loc, x, y))
                if loc[0] == 'b' and loc[2] == 'alive': raise Unsupported('storage released in a loop')
                mod[loc] = fresh('h', so); grew = True
        if not grew: break
    else:
        if guess is None: raise Unsupported('modified set')
    if guess is None: ex.loop_lists[node.get('id')] = tuple(lists)
    # ---- counters
    closed = dict(given)
    init = {}
    for loc in mod:
        v = getloc(base, loc)
        if loc in ptrs: v = v.off
        if not isinstance(v, T):
            v = tm.var('undef' + str(mod[loc].args[0]), mod[loc].sort)
        if v.sort != mod[loc].sort: v = i2r(v) if mod[loc].sort == 'R' else v
        init[loc] = v
    hv = {v: loc for loc, v in mod.items()}
    bctr = base.ctr
    byname = {}
    for key, v in base.env.items():
        if isinstance(v, T) and ('e', key) not in mod and ex.declname.get(key[1]): byname[ex.declname[key[1]]] = v
    def stated(step, loc, at):
        try: return step[1](lambda name: byname[name], at, init[loc])
        except KeyError: raise WrongGuess()
    for loc, step in guessed.items():
        if isinstance(step, tuple):      # an invariant written down in the contract: base case here, step case below
            closed[loc] = stated(step, loc, t)
            if ex.prover.prove(base.facts, eq(stated(step, loc, ZERO), init[loc]), 2.0) != 'valid': raise WrongGuess()
            continue
        closed[loc] = add(init[loc], scale(step, t if mod[loc].sort == 'I' else i2r(t))) if step else init[loc]
    steps = dict(guessed)   # loc -> number, or a stated invariant
    for rnd in range(6):
        h = head(closed)
        n0 = len(ex.obls); d0 = ex.discharged
        outs = run(h, False)
        nexts = [(canon(ex, h, s), r) for s, r in outs if r[0] == 'next']
        others = [(s, r) for s, r in outs if r[0] != 'next']
        if nexts:
            try:
                if len(nexts) > 1: nx, _ = merge_outcomes(h, [s for s, r in nexts], ex.pinned)
                else: nx = nexts[0][0]
            except Unmergeable as e:
                raise Unsupported('loop body paths do not merge: %s' % e)
            dl = [l for l in diff(h, nx)]
            for l in dl:
                if l[0] == 'b' and l[2] == 'arr' and l[1] in lists: continue
                if l not in mod:
                    if guess is not None: raise WrongGuess()
                    raise Unsupported('loop location appears late %r' % (l,))
        else:
            nx = None
        progress = False
        posts = {}
        if nx is not None:
            for loc in mod:
                v = getloc(nx, loc)
                if loc in ptrs: v = v.off
                if v is UNDEF: v = tm.var('undef' + str(mod[loc].args[0]), mod[loc].sort)
                if not isinstance(v, T): raise Unsupported('loop value %r' % (v,))
                if v.sort != mod[loc].sort: v = i2r(v) if v.sort == 'I' else v
                posts[loc] = v
                if loc in guessed and isinstance(guessed[loc], tuple):
                    if ex.prover.prove(nx.facts, eq(v, stated(guessed[loc], loc, add(t, ONE))), 5.0) != 'valid': raise WrongGuess()
                    continue
                if loc in guessed:
                    if mod[loc].sort in ('I', 'R'): ok = sub(v, closed[loc]) is num(guessed[loc], mod[loc].sort)
                    else: ok = v is closed[loc]
                    if not ok and guessed[loc] == 0 and mod[loc].sort == 'I':
                        ok = ex.prover.quick(nx.facts, eq(v, closed[loc])) or ex.prover.prove(nx.facts, eq(v, closed[loc]), 2.0) == 'valid'
                    if not ok: raise WrongGuess()
            for loc in mod:
                if loc in closed: continue
                p, x = posts[loc], mod[loc]
                if p is x: closed[loc] = init[loc]; steps[loc] = 0; progress = True; continue
                if x.sort in ('I', 'R'):
                    d = sub(p, x)
                    if x not in d.vs and not any(v in hv for v in d.vs) and t not in d.vs and not _bodyfresh(d, bctr):
                        closed[loc] = add(init[loc], mul(d, t if x.sort == 'I' else i2r(t)))
                        if isnum(d): steps[loc] = d.args[0]
                        progress = True
        if not progress: break
        del ex.obls[n0:]; ex.discharged = d0
    if nx is not None and node.get('id') and spec is None:
        # an integer that each iteration may change and put back: try it as constant
        tried = ex.loop_tried.setdefault(node['id'], set())
        for i, inv in enumerate(ex.invariants if invs is not None else ()):
            hit = {l: inv[ex.declname.get(l[1][1])] for l in mod if l not in closed and l[0] == 'e' and len(l) == 2 and ex.declname.get(l[1][1]) in inv}
            if hit and i not in invs:
                invs.add(i)
                raise TryGuess([(x, mod[x].sort, x in ptrs, ('inv', hit[x]) if x in hit else steps.get(x)) for x in mod])
        for loc in mod:
            if loc in closed or mod[loc].sort != 'I' or loc in tried or mod[loc] not in posts[loc].vs: continue
            l = tm.lin_in(posts[loc], mod[loc])
            if l is not None and l[0] is ONE: continue
            tried.add(loc)
            raise TryGuess([(x, mod[x].sort, x in ptrs, 0 if x == loc else steps.get(x)) for x in mod])
    if node.get('id') and nx is not None and spec is None:
        ex.loop_guess[node['id']] = [(l, mod[l].sort, l in ptrs, steps.get(l)) for l in mod]
    if info['nconds'] > len(outs) and False: pass
    body_obls = ex.obls[n0:]
    del ex.obls[n0:]
    # ---- skolemise symbols created in the body
    sk = {}
    def skol(term):
        bf = _bodyfresh(term, bctr)
        for v in bf:
            if v not in sk:
                nm = '$sk_' + v.args[0] + '_' + t.args[0]
                if v.sort in ('AI', 'AR'):
                    k = fresh('k', 'I')
                    sk[v] = mk_lam(k, uf(nm, v.sort[1], t, k))
                elif v.sort == 'B': sk[v] = ne(uf(nm, 'I', t), ZERO)
                else: sk[v] = uf(nm, v.sort, t)
        return subst(term, sk) if bf else term
    posts = {l: skol(p) for l, p in posts.items()}
    sol = {}       # hvar -> closed(t)
    for loc, c in closed.items(): sol[mod[loc]] = c
    facts = []
    if nx is not None:
        facts = [skol(f) for f in nx.facts]
        facts = [f for f in facts if f is not TRUE]
    pend = [l for l in mod if l not in closed]
    wraps = []
    foldlike = {}  # loc -> True when its closed form is a fold
    prover = ex.prover
    guard = 0
    while pend:
        guard += 1
        if guard > 40: raise Unsupported('loop recurrences')
        done = None
        for loc in pend:        # counters that wrap around, and those that count the wraps
            if mod[loc].sort != 'I': continue
            p = subst(posts[loc], sol)
            if any(v in hv and v is not mod[loc] and v not in sol for v in p.vs) or any(u.op in BINDERS for u in tm.subterms([p])): continue
            fs = [subst(f, sol) for f in facts]
            c = solve_wrap(ex, fs, t, init[loc], mod[loc], p, wraps)
            if c is not None: sol[mod[loc]] = c; done = loc; break
        if done is not None:
            pend.remove(done); continue
        for loc in pend:
            p = subst(posts[loc], sol)
            deps = [hv[v] for v in p.vs if v in hv and hv[v] != loc and v not in sol]
            if deps: continue
            fs = [subst(f, sol) for f in facts]
            if mod[loc].sort in ('AI', 'AR'):
                ln = getloc(nx, ('b', loc[1], 'len'))
                ln = subst(skol(ln), sol)
                c = solve_array(ex, fs, t, init[loc], mod[loc], p, ln)
            else:
                c, isfold = solve_scalar(ex, fs, t, init[loc], mod[loc], p)
                if isfold:
                    # join with fold-like components it depends on
                    raw = posts[loc]
                    group = [loc]
                    ch = True
                    while ch:
                        ch = False
                        for g in list(group):
                            for v in posts[g].vs:
                                if v in hv and hv[v] in foldlike and hv[v] not in group:
                                    group.append(hv[v]); ch = True
                    if len(group) > 1:
                        c = joint_fold(t, group, posts, mod, init, {v: x for v, x in sol.items() if hv[v] not in group}, 0)
                    foldlike[loc] = True
            sol[mod[loc]] = c
            done = loc
            break
        if done is not None:
            pend.remove(done); continue
        # mutually dependent scalars
        scal = [l for l in pend if mod[l].sort in ('I', 'R', 'B')]
        grp = None
        for l in scal:
            g = {l}; ch = True; ok = True
            while ch and ok:
                ch = False
                for x in list(g):
                    for v in subst(posts[x], sol).vs:
                        if v in hv and v not in sol and hv[v] not in g:
                            if mod[hv[v]].sort in ('AI', 'AR'): ok = False; break
                            g.add(hv[v]); ch = True
            if ok and (grp is None or len(g) < len(grp)): grp = g
        if grp is None:
            joint_arrays(ex, nx, facts, t, pend, posts, mod, init, sol, skol)
            pend = []; continue
        grp = sorted(grp, key=str)
        allg = list(grp)
        ch = True
        while ch:
            ch = False
            for g in list(allg):
                for v in posts[g].vs:
                    if v in hv and hv[v] in foldlike and hv[v] not in allg: allg.append(hv[v]); ch = True
        res = {}
        for i, l in enumerate(grp):
            res[mod[l]] = joint_fold(t, allg, posts, mod, init, {v: x for v, x in sol.items() if hv[v] not in allg}, allg.index(l))
            foldlike[l] = True
        sol.update(res)
        pend = [l for l in pend if l not in grp]
    def close(term):
        return subst(skol(term), sol)
    for b in lists:
        if nx is None: raise Unsupported('list modified in a loop')
        a = nx.bufs[b].arr
        if len(a) != 2 or a[0] != Prior(b): raise Unsupported('list modified in a loop')
        o = a[1]
        if isinstance(o, Struct):
            if close(o.f['i']) is not t or base.bufs[b].arr == (): raise Unsupported('order in which a list is filled')
            o = o.f['o']
        elif base.bufs[b].arr != (): raise Unsupported('append to a list of symbolic length')
        if not isinstance(o, O) or o.oid is None or nx.objs[o.oid].cls not in CLS3: raise Unsupported('list element')
        if not frozen(o.oid):
            if o.oid in base.objs: raise Unsupported('list element known outside the loop')
            kept = nx.copy(); kept.env = {k: v for k, v in nx.env.items() if k in h.env}
            if count_refs(kept, 'o', o.oid) != 1: raise Unsupported('shared list element')
        ob = nx.objs[o.oid]; sz = ob.f['_size']; p = ob.f['_data']
        k = fresh('k', 'I')
        shape = [sz] if isinstance(sz, T) else [sz.f[x] for x in 'xyz' if x in sz.f]
        cells = nx.bufs[p.bid].arr if p.bid is not None else tm.var('$none', 'AR')
        if p.off is not ZERO or any(not isinstance(x, T) for x in shape): raise Unsupported('list element')
        lists[b] = Fam(ob.cls, k, [subst(close(x), {t: k}) for x in shape], subst(close(cells), {t: k}))
    # ---- exits and the number of iterations
    nb = len(h.br)
    exits = []
    others = ex.merge_list(h, others) if len(others) > 1 else others
    for s, r in others:
        pred = band(*[close(c) for c in s.br[nb:]])
        exits.append((s, r, pred))
    if not exits: raise Unsupported('loop without exit')
    bf = list(base.facts)
    N = None; rest = []
    if nx is None: N = ZERO       # no path reaches a second iteration
    lin = set()
    for s, r, pred in exits:
        if nx is None: break
        if pred.op in ('and', 'true'): continue
        stay = bnot(pred)
        for c in tm.conjuncts(stay):
            b = linear_bound(ex, bf, c, t)
            if b is not None:
                N = b if N is None else min_of(ex, bf, N, b)
                lin.add(c)
    for s, r, pred in exits:
        if nx is None: break
        cs = tm.conjuncts(pred)
        rc = [c for c in cs if c not in lin]
        stay = bnot(band(*rc))
        for c in tm.conjuncts(stay):
            if c in lin: continue
            b = linear_bound(ex, bf, c, t)
            if b is None: rest.append(c)
            else: N = b if N is None else min_of(ex, bf, N, b); lin.add(c)
    if N is None: raise Unsupported('no bound on the number of iterations')
    if nx is None:
        # the body never falls through to another iteration
        pass
    rest = [c for c in rest if c is not TRUE]
    exitpred = bor(*[bnot(c) for c in rest]) if rest else FALSE
    Tst = mk_first(N, t, exitpred) if exitpred is not FALSE else N
    # ---- obligations of the body, for every iteration
    extra = [le(ZERO, t), le(t, Tst)]
    if Tst is not N: extra.append(le(t, N))
    from .exec import Oblig
    if not ex.quiet:
        for o in body_obls:
            fs = tuple(close(f) for f in o.facts) + tuple(extra)
            g = close(o.goal)
            ex.obls.append(Oblig(o.kind, o.where, fs, g, o.what))
    # ---- resulting states
    res = []
    mT = {t: Tst}
    if spec is not None:
        def closed_state(s):
            c = s.copy(); f2 = lambda v: _mapval(v, close)
            c.env = {k: f2(v) for k, v in s.env.items()}
            c.objs = {k: Obj(o.cls, {n: f2(v) for n, v in o.f.items()}) for k, o in s.objs.items()}
            c.bufs = {k: Buf(f2(b.len), tuple(f2(v) for v in b.arr) if b.sort == 'L' else f2(b.arr), f2(b.alive), b.sort) for k, b in s.bufs.items()}
            c.br = tuple(close(x) for x in s.br); c.asm = tuple(close(x) for x in s.asm)
            return c
        if nx is not None: spec.step(closed_state(nx), tuple(extra))
        moved = []
        for s, r, pred in exits:
            if r[0] == 'return': raise Unsupported('return from an iterated loop')
            at = spec.values(s, t)
            if all(getloc(s, l) is v for l, v in at.items()): moved.append((s, r, pred)); continue
            spec.step(closed_state(s), tuple(extra))        # the last step is taken on the way out
            s = s.copy()
            for l, v in spec.values(s, add(t, ONE)).items(): setloc(s, l, v)
            moved.append((s, r, pred))
        exits = moved
    for s, r, pred in exits:
        s2 = base.copy()
        s2.ctr = max(base.ctr, s.ctr)
        f2 = lambda v: lists[v.bid] if isinstance(v, Prior) and v.bid in lists else _mapval(v, lambda x: subst(close(x), mT))
        for b in lists:
            if s.bufs[b].arr != (Prior(b),): raise Unsupported('the loop ends while a list is being filled')
            if base.bufs[b].arr != () and ex.prover.prove(s.facts, eq(Tst, base.bufs[b].len), 4.0) != 'valid': raise Unsupported('a list is not filled completely')
        s2.env = {k: f2(v) for k, v in s.env.items()}
        s2.objs = {k: Obj(o.cls, {n: f2(v) for n, v in o.f.items()}) for k, o in s.objs.items()}
        s2.bufs = {k: Buf(f2(b.len), tuple(f2(v) for v in b.arr) if b.sort == 'L' else f2(b.arr), f2(b.alive), b.sort) for k, b in s.bufs.items()}
        s2.wild = dict(s.wild)
        try:
            s2.assume(le(ZERO, Tst))
            if Tst is not N: s2.assume(le(Tst, N))
            p2 = subst(pred, mT)
            # when this is the only exit its predicate holds by definition of the trip count
            if len(exits) == 1 and nx is not None: s2.assume(p2)
            else: s2.take(p2)
            for c in s.asm[len(h.asm):]:
                s2.assume(subst(close(c), mT))
        except Prune:
            continue
        if len(exits) > 1 and ex.prover.quick(s2.facts, FALSE): continue
        rr = None if r[0] in ('exit', 'break') else ('return', _mapval(r[1], lambda x: subst(close(x), mT)))
        res.append((s2, rr))
    ex.loop_notes.append((ex.where(node), len(mod)))
    return res

def _mapval(v, f):
    if isinstance(v, T): return f(v)
    if isinstance(v, Ptr): return Ptr(v.bid, f(v.off))
    if isinstance(v, Struct): return Struct(v.name, {k: _mapval(x, f) for k, x in v.f.items()})
    if isinstance(v, Alias): return Alias(_maplv(v.lv, f))
    if isinstance(v, Fam): return v.map(f)
    return v
def _maplv(lv, f):
    return tuple(_maplv(x, f) if isinstance(x, tuple) else _mapval(x, f) if isinstance(x, (Ptr, T)) else x for x in lv)

def min_of(ex, facts, a, b):
    if a is b: return a
    if ex.prover.quick(facts, le(a, b)): return a
    if ex.prover.quick(facts, le(b, a)): return b
    return ite(le(a, b), a, b)

def linear_bound(ex, facts, c, t):
    """c: a conjunct of the stay condition; number of leading iterations for which it holds"""
    if t not in c.vs:
        if ex.prover.quick(facts, c): return None
        return None
    if c.op == 'le0' and c.args[0].sort == 'I':
        l = tm.lin_in(c.args[0], t)
        if l is None: return None
        k, r = l
        if k.op == 'num':
            if k.args[0] <= 0: return None
            if k.args[0] == 1: m = sub(ONE, r)
            else: m = add(idiv(neg(r), k), ONE)
        else:
            if not ex.prover.quick(facts, le(ONE, k)): return None
            m = add(idiv(neg(r), k), ONE)
        if k.op == 'num' and k.args[0] == 1:
            if ex.prover.quick(facts, le(ZERO, m)): return m
            return ite(le(ZERO, m), m, ZERO)
        if ex.prover.quick(facts, le(r, ZERO)): return m
        return ite(le(r, ZERO), m, ZERO)
    if c.op in ('le0', 'lt0') and c.args[0].sort == 'R':
        l = tm.lin_in(c.args[0], i2r(t))
        if l is None or t in l[1].vs or l[0].op != 'num' or l[0].args[0] <= 0: return None
        r = scale(-1 / l[0].args[0], l[1])
        m = tm.ceil_(r) if c.op == 'lt0' else add(neg(tm.ceil_(neg(r))), ONE)
        return ite(le(ZERO, m), m, ZERO)
    nc = bnot(c)
    if nc.op == 'eq0' and nc.args[0].sort == 'I':
        l = tm.lin_in(nc.args[0], t)
        if l and l[0].op == 'num' and abs(l[0].args[0]) == 1:
            root = scale(-1 / l[0].args[0], l[1])
            if ex.prover.quick(facts, le(ZERO, root)): return root
    return None

# ------------------------------------------------------------------------------------------------ recurrences
def joint_fold(t, group, posts, mod, init, sol, idx):
    svs = [fresh('s', mod[l].sort) for l in group]
    m = {mod[l]: sv for l, sv in zip(group, svs)}
    tt = fresh('t', 'I')
    triples = []
    for l, sv in zip(group, svs):
        b = subst(subst(posts[l], sol), m)
        triples.append((sv, init[l], subst(b, {t: tt})))
    return tm.mk_fold(t, tt, triples, idx)

def solve_scalar(ex, facts, t, init, x, p):
    """x_{t+1} = p(t, x_t) -> (closed form in t, is_fold)"""
    if x not in p.vs:
        prev = subst(p, {t: sub(t, ONE)})
        if prev is p and init is p: return p, False
        return ite(le(t, ZERO), init, prev), False
    if x.sort == 'B':
        hi = subst(p, {x: TRUE}); lo = subst(p, {x: FALSE})
        v = fresh('s', 'I')
        if hi is TRUE:
            c = subst(lo, {t: v})
            return bor(init, lt(tm.mk_first(t, v, c), t)), False
        if lo is FALSE:
            c = bnot(subst(hi, {t: v}))
            return band(init, le(t, tm.mk_first(t, v, c))), False
    else:
        l = tm.lin_in(p, x)
        if l is not None and l[0].op == 'num' and l[0].args[0] == 1:
            v = fresh('s', 'I')
            return add(init, tm.mk_sum(t, v, subst(l[1], {t: v}))), False
    tt = fresh('t', 'I')
    sv = fresh('s', x.sort)
    return tm.mk_fold(t, tt, [(sv, init, subst(p, {t: tt, x: sv}))], 0), True

def solve_wrap(ex, facts, t, init, x, p, wraps):
    """x counts modulo m, or x counts the wraps of a counter found before; an inductive candidate or None"""
    def count(g):
        v = fresh('s', 'I')
        return tm.mk_sum(t, v, subst(g, {t: v}))
    if x in p.vs and any(u.op == 'eq0' and x in u.vs for u in tm.subterms([p])):
        for u in tm.subterms([p]):
            if u.op != 'eq0' or x not in u.vs or u.args[0].sort != 'I': continue
            l = tm.lin_in(u.args[0], x)
            if l is None or not isnum(l[0]) or abs(l[0].args[0]) != 1: continue
            m = add(scale(-1 / l[0].args[0], l[1]), ONE)        # x == m - 1 in the condition
            if t in m.vs or x in m.vs: continue
            for m in (m, sub(m, ONE)):
                if not ex.prover.quick(facts, band(le(ONE, m), le(ZERO, init), lt(init, m))): continue
                S = fresh('S', 'I'); a = imod(S, m)
                f2 = [subst(f, {x: a}) for f in facts] + [le(ZERO, S)]
                # per branch of the body the counter advances by one or stays
                g = _advance(ex, f2, p, x, a, m, S)
                if g is None: continue
                A = add(init, count(g))
                wraps.append((m, g, A, S, f2))
                return imod(A, m)
    l = tm.lin_in(p, x) if x in p.vs else None
    if l is not None and l[0] is ONE:
        for m, g, A, S, f2 in wraps:
            d = replace(l[1], {imod(A, m): imod(S, m)})
            if d is l[1] or S not in d.vs: continue
            if ex.prover.prove(f2, eq(d, sub(idiv(add(S, g), m), idiv(S, m))), 4.0) == 'valid': return add(init, idiv(A, m))
    return None

def _advance(ex, facts, p, x, a, m, S):
    """g in {0, 1} per branch with  p[x := S mod m] == (S + g) mod m"""
    if p.op == 'ite' and x not in p.args[0].vs:
        g1 = _advance(ex, list(facts) + [p.args[0]], p.args[1], x, a, m, S)
        if g1 is None: return None
        g2 = _advance(ex, list(facts) + [bnot(p.args[0])], p.args[2], x, a, m, S)
        return None if g2 is None else ite(p.args[0], g1, g2)
    if p is x: return ZERO
    if ex.prover.prove(facts, eq(subst(p, {x: a}), imod(add(S, ONE), m)), 4.0) == 'valid': return ONE
    return None

def _sels(term, h):
    """index terms e of sel(h, e), and whether h occurs in any other way"""
    idx = set(); other = [False]
    seen = set()
    def go(u):
        if u in seen or h not in u.vs: return
        seen.add(u)
        if u is h: other[0] = True; return
        if u.op == 'sel' and u.args[0] is h:
            idx.add(u.args[1]); go(u.args[1]); return
        if u.op == 'poly':
            for c, m in u.args:
                for a, e in m: go(a)
        elif u.op in BINDERS:
            for a in u.args[1]: go(a)
            for b in u.args[2]: go(b)
        else:
            for a in u.args:
                if isinstance(a, T): go(a)
    go(term)
    return idx, other[0]

def own_cell(ex, facts, u, h, k):
    """rewrite sel(h, e) to sel(h, k) where the guard forces e == k"""
    cell = sel(h, k)
    memo = {}
    def go(x, conds):
        if h not in x.vs: return x
        key = (x, conds)
        if key in memo: return memo[key]
        if x.op == 'ite':
            c, a, b = x.args
            r = ite(go(c, conds), go(a, conds + (c,)), go(b, conds + (bnot(c),)))
        elif x.op == 'sel' and x.args[0] is h:
            e = x.args[1]
            r = x
            if e is not k and not any(v.op == 'bv' for v in e.vs) and conds and ex.prover.quick(list(facts) + list(conds), eq(e, k)):
                r = cell
        elif x.op in BINDERS: r = x
        else: r = tm._rebuild(x, lambda y: go(y, conds))
        memo[key] = r
        return r
    return go(u, ())

def _either(c, a, b):
    """a if c else b, with the common conjuncts in front"""
    if a is b: return a
    ca, cb = tm.conjuncts(a), tm.conjuncts(b)
    com = [x for x in ca if x in cb]
    if not com: return bor(band(c, a), band(bnot(c), b))
    ra = band(*[x for x in ca if x not in com]); rb = band(*[x for x in cb if x not in com])
    return band(*com, bor(band(c, ra), band(bnot(c), rb)))

def split_update(u, x):
    """u(x) -> (P, V): value changes only when P, to V"""
    if u is x: return FALSE, x
    if u.op == 'ite':
        c, a, b = u.args
        pa, va = split_update(a, x); pb, vb = split_update(b, x)
        P = _either(c, pa, pb)
        V = va if pb is FALSE else vb if pa is FALSE else ite(c, va, vb)
        return P, V
    if u.sort in ('I', 'R'):
        l = tm.lin_in(u, x)
        if l is not None and l[0].op == 'num' and l[0].args[0] == 1:
            r = l[1]
            it = r if r.op == 'ite' else None
            if it is None and r.op == 'poly' and len(r.args) == 1:
                for a, e in r.args[0][1]:
                    if a.op == 'ite': it = a; break
            if it is not None:
                c = it.args[0]
                a = replace(r, {c: TRUE, bnot(c): FALSE}); b = replace(r, {c: FALSE, bnot(c): TRUE})
                return split_update(ite_raw(c, add(x, a), add(x, b)), x) if False else _split2(c, add(x, a), add(x, b), x)
        elif u.op == 'poly':
            # common additive parts extracted from an ite: x-free part plus ite(c, .., x+..)
            its = [a for a in tm.atoms_of_poly(u) if a.op == 'ite' and x in a.vs]
            if its:
                c = sorted(its, key=lambda z: z.id)[0].args[0]
                a = replace(u, {c: TRUE, bnot(c): FALSE}); b = replace(u, {c: FALSE, bnot(c): TRUE})
                return _split2(c, a, b, x)
    return TRUE, u

def _split2(c, a, b, x):
    pa, va = split_update(a, x); pb, vb = split_update(b, x)
    P = _either(c, pa, pb)
    V = va if pb is FALSE else vb if pa is FALSE else ite(c, va, vb)
    return P, V

def unique_t(ex, facts, P, t, k, depth=0):
    """tau with  P(t) => t == tau(k)"""
    cands = []
    for c in tm.conjuncts(P):
        if t not in c.vs: continue
        if c.op == 'eq0' and c.args[0].sort == 'I':
            l = tm.lin_in(c.args[0], t)
            if l is None:
                # (e mod m) == 0 with t occurring once in e
                its = tm.poly_items(c.args[0])
                if len(its) == 1 and len(its[0][1]) == 1 and its[0][1][0][0].op == 'imod':
                    e, m = its[0][1][0][0].args
                    l = tm.lin_in(e, t)
                    if l is not None and l[0].op == 'num' and abs(l[0].args[0]) == 1 and t not in m.vs:
                        cands.append(imod(scale(-1 / l[0].args[0], l[1]), m))
                # co*t + (an index that depends on t): the row of the cell, if the index lies in the row
                far = [a for a in tm.atoms_of_poly(c.args[0]) if a is not t and t in a.vs and a.op == 'fold']
                if far:
                    l = tm.lin_in(replace(c.args[0], {a: ZERO for a in far}), t)
                    if l is not None: cands += [idiv(neg(l[1]), l[0]), idiv(l[1], neg(l[0]))]
                continue
            co, r = l
            if co.op == 'num' and abs(co.args[0]) == 1: cands.insert(0, scale(-1 / co.args[0], r))
            elif co.op == 'num': cands.append(idiv(neg(r), co) if co.args[0] > 0 else idiv(r, neg(co)))
            else:
                cands.append(idiv(neg(r), co)); cands.append(idiv(r, neg(co)))
        elif c.op == 'le0' and c.args[0].sort == 'I':
            l = tm.lin_in(c.args[0], t)
            if l is None: continue
            co, r = l
            if co.op == 'num' and co.args[0] <= 0: continue
            if co.op == 'num' and co.args[0] == 1: cands.append(neg(r))
            else:
                if k is not None and co.op != 'num' and t not in co.vs: cands.append(idiv(k, co))
                cands.append(idiv(neg(r), co))
    for tau in cands:
        if t in tau.vs: continue
        fs = list(facts) + tm.conjuncts(P) + [le(ZERO, t)]
        if ex.prover.quick(fs, eq(t, tau)):
            return tau
        m = rebase(tau, t, k)
        if m:
            gs = [subst(f, m) for f in fs]          # equations about W would only be solved for W again
            if ex.prover.quick([f for f, g in zip(gs, fs) if g.op != 'eq0' or g is f], subst(eq(t, tau), m)): return tau
    if depth >= 3: return None
    for c in tm.conjuncts(P):       # a choice that depends on t: solve both sides
        if c.op not in ('eq0', 'le0') or t not in c.vs: continue
        for u in tm.subterms([c]):
            if u.op == 'ite' and u.sort == 'I' and t in u.args[0].vs and not any(v is not u and v.op == 'ite' and t in v.vs for v in tm.subterms([u])):
                t1 = unique_t(ex, facts, band(u.args[0], replace(P, {u: u.args[1]})), t, k, depth + 1)
                if t1 is None: return None
                t2 = unique_t(ex, facts, band(bnot(u.args[0]), replace(P, {u: u.args[2]})), t, k, depth + 1)
                if t2 is None: return None
                fs = list(facts) + tm.conjuncts(P) + [le(ZERO, t)]; c0 = u.args[0]
                t1, t2 = ex.prover.lift_divs(fs, t1), ex.prover.lift_divs(fs, t2)
                if t1 is t2: return t1 if t not in t1.vs else None
                for tau in (t1, t2):
                    if t not in tau.vs and ex.prover.quick(fs, eq(t, tau)): return tau
                # t == t1 where c0 holds and t == t2 elsewhere: tell the sides apart by c0 at t1, or by c0 at t2
                if t in t1.vs or t in t2.vs: return None
                n0, n1 = subst(c0, {t: t1}), subst(c0, {t: t2})
                if ex.prover.quick(fs + [bnot(c0), eq(t, t2)], bnot(n0)): return ite(n0, t1, t2)
                if ex.prover.quick(fs + [c0, eq(t, t1)], n1): return ite(n1, t1, t2)
                return None
    return None

def rebase(tau, *keep):
    """for a quotient by w + 2P: the change of variable w := W - 2P, under which the divisor is one symbol"""
    for u in tm.subterms([tau]):
        if u.op not in ('idiv', 'imod'): continue
        its = tm.poly_items(u.args[1])
        if len(its) < 2: continue
        for c, m in its:        # a square (x + b)^2
            if c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].op == 'var' and m[0][0] not in keep:
                x = m[0][0]; b = ZERO
                for c2, m2 in its:
                    if (x, 1) in m2: b = add(b, tm._mkpoly({tuple(z for z in m2 if z != (x, 1)): c2 / 2}, 'I'))
                if x not in b.vs and mul(add(x, b), add(x, b)) is u.args[1]: return {x: sub(fresh('W', 'I'), b)}
        for c, m in its:
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and m[0][0] not in keep:
                x = m[0][0]; rest = sub(u.args[1], scale(c, x))
                if x in rest.vs: continue
                W = fresh('W', 'I')
                return {x: scale(c, sub(W, rest))}
    return None

def tidy(ex, facts, P, x):
    """P with the choices inside each conjunct resolved under the other conjuncts"""
    if P.op != 'and': return P
    cs = list(P.args)
    for i, c in enumerate(cs):
        if x in c.vs: continue
        others = list(facts) + cs[:i] + cs[i + 1:]
        for _ in range(6):
            for u in sorted(tm.subterms([c]), key=lambda u: u.id):
                if u.op != 'ite' or u.sort != 'I' or any(z.op == 'bv' for z in u.args[0].vs): continue
                b = u.args[0]
                if ex.prover.quick(others, b): r = u.args[1]
                elif ex.prover.quick(others, bnot(b)): r = u.args[2]
                else: continue
                c = replace(c, {u: r}); break
            else: break
        cs[i] = c
    return band(*cs)

def solve_array(ex, facts, t, init, h, post, ln):
    """array recurrence a_{t+1} = post(t, a_t); returns closed form as an array term in t"""
    k = fresh('k', 'I')
    u = sel(post, k)
    kfacts = list(facts) + [le(ZERO, k), lt(k, ln)]
    if any(v.op in ('idiv', 'imod') for v in tm.subterms([u])): u = ex.prover.lift_divs(kfacts, u)
    u = own_cell(ex, kfacts, u, h, k)
    x = fresh('x', u.sort)
    ux = replace(u, {sel(h, k): x})
    foreign = h in ux.vs
    a0 = sel(init, k)
    if foreign:
        ux = subst(ux, {h: init})
    cand = None
    if x not in ux.vs and t not in ux.vs and not foreign:
        return mk_lam(k, ite(le(t, ZERO), a0, ux))
    P, V = split_update(ux, x)
    P = tidy(ex, kfacts, P, x)
    verified = not foreign
    def hit(D, tau, V):
        """value of the cell at time t when D's unique hit is tau"""
        Vt = subst(V, {t: tau})
        g = band(le(ZERO, tau), lt(tau, t), subst(D, {t: tau}))
        if tau.op != 'var' and any(u.op == 'ite' for u in tm.subterms([tau])):      # leave out what follows from the rest
            cs = tm.conjuncts(g); hf = [f for f in kfacts if t not in f.vs] + [le(ZERO, t)]
            for c in sorted(cs, key=lambda c: (c.op == 'le0', -len(tm.subterms([c])))):
                others = [d for d in cs if d is not c]
                if any(u.op == 'ite' for u in tm.subterms([c])) and ex.prover.quick(hf + others, c): cs = others
            g = band(*cs)
        return g, Vt
    tau = unique_t(ex, kfacts, P, t, k) if P is not TRUE else None
    if tau is not None:
        g, v = hit(P, tau, V)
        cand = ite(subst(g, {x: a0}), subst(v, {x: a0}), a0)
    elif appended(ex, kfacts, P, V, x, t, k) is not None:
        cand = ite(appended(ex, kfacts, P, V, x, t, k), subst(V, {t: tm.FIRST(t, lambda s: subst(P, {t: s}))}), a0)
    elif x not in V.vs and t not in P.vs and x not in P.vs:
        # same cells overwritten in every iteration: last one wins
        cand = ite(band(lt(ZERO, t), P), subst(V, {t: sub(t, ONE)}), a0)
    elif P is not TRUE and P.op == 'or':
        cur = a0; ok = True
        for D in P.args:
            tau = unique_t(ex, kfacts, D, t, k)
            if tau is None: ok = False; break
            VD = _under(ex, kfacts, V, D)
            g, v = hit(D, tau, VD)
            cur = ite(subst(g, {x: cur}), subst(v, {x: cur}), cur)
        if ok: cand = cur; verified = False
    if cand is None and not foreign:
        l = tm.lin_in(ux, x)
        if l is not None and l[0].op == 'num' and l[0].args[0] == 1:
            v = fresh('s', 'I')
            return mk_lam(k, add(a0, tm.mk_sum(t, v, subst(l[1], {t: v}))))
        tt = fresh('t', 'I')
        return mk_lam(k, tm.mk_fold(t, tt, [(x, a0, subst(ux, {t: tt}))], 0))
    if cand is None:
        r = chosen(ex, facts, t, init, h, post, ln)
        if r is not None: return r
        raise Unsupported('storage recurrence with cross-cell reads')
    if x in cand.vs: raise Unsupported('storage recurrence')
    if not verified:
        lam = mk_lam(k, cand)
        z = subst(cand, {t: ZERO})
        if z is not a0 and ex.prover.prove(kfacts, eq(z, a0), 3.0) != 'valid':
            raise Unsupported('storage invariant not established')
        step = subst(sel(post, k), {h: lam})
        nxt = subst(cand, {t: add(t, ONE)})
        fs = [subst(f, {h: lam}) for f in kfacts]
        if ex.prover.prove(fs, eq(step, nxt), 6.0) != 'valid':
            raise Unsupported('storage invariant not inductive')
    return mk_lam(k, cand)

def chosen(ex, facts, t, init, h, post, ln):
    """a_{t+1} = F(t) where C(t, a_t), else a_t, with a_0 = F(i0): the array is F(i) for a running position i"""
    k = fresh('k', 'I'); x = fresh('x', 'R' if h.sort == 'AR' else 'I')
    kf = list(facts) + [le(ZERO, k), lt(k, ln)]
    u = own_cell(ex, kf, ex.prover.lift_divs(kf, sel(post, k)), h, k)
    u = replace(u, {sel(h, k): x})
    if u.op != 'ite' or k in u.args[0].vs: return None
    C, new, old = u.args
    if old is not x:
        C, new, old = bnot(C), old, new
    if old is not x or h in new.vs or x in new.vs or x in C.vs: return None
    a0 = sel(init, k)
    at = lambda i: subst(new, {t: i})
    nf = [f for f in kf if t not in f.vs]
    if ex.prover.prove(nf, eq(at(ZERO), a0), 3.0) != 'valid': return None
    i = fresh('s', 'I'); tt = fresh('t', 'I')
    cond = subst(subst(C, {h: mk_lam(k, at(i))}), {t: tt})
    pos = tm.mk_fold(t, tt, [(i, ZERO, ite(cond, tt, i))], 0)
    return mk_lam(k, at(pos))

def appended(ex, facts, P, V, x, t, k):
    """cells written at position A + number of hits so far: P(t) => C(t) and k == A + sum_{s<t} [C(s)].  The cells written before
    time t are those from A up to A + sum_{s<t} [C(s)], each once, at the first (and only) time P holds"""
    if x in V.vs or x in P.vs: return None
    for c in tm.conjuncts(P):
        if c.op != 'eq0' or c.args[0].sort != 'I' or t not in c.vs or k not in c.vs: continue
        l = tm.lin_in(c.args[0], k)
        if l is None or l[0].op != 'num' or abs(l[0].args[0]) != 1: continue
        L = scale(-1 / l[0].args[0], l[1])
        sums = []
        for co, m in tm.poly_items(L):
            if len(m) == 1 and m[0][0].op == 'sum' and m[0][1] == 1 and co == 1 and t in m[0][0].vs: sums.append(m[0][0])
        if len(sums) != 1: continue
        S = sums[0]; A = sub(L, S)
        if t in A.vs or S.args[1][0] is not t: continue
        C = subst_bv(S, t)
        if C.op != 'ite' or C.args[1] is not ONE or C.args[2] is not ZERO: continue
        if not ex.prover.quick(tuple(facts) + tuple(tm.conjuncts(P)), C.args[0]): continue
        others = band(*[d for d in tm.conjuncts(P) if d is not c])
        if not ex.prover.quick(tuple(facts) + (C.args[0],), others): continue       # every hit writes
        return band(le(A, k), lt(k, L))
    return None
def subst_bv(S, t):
    """the body of a sum at t"""
    return tm._raw_replace(S.args[2][0], {tm.bvars_of(S)[0]: t}, {})
def joint_arrays(ex, nx, facts, t, pend, posts, mod, init, sol, skol):
    """several buffers updated cell by cell from each other: guess that foreign cells are read before they change, then check by induction"""
    if any(mod[l].sort not in ('AI', 'AR') for l in pend): raise Unsupported('loop recurrences involve storage and scalars together')
    orig = {mod[l]: init[l] for l in pend}
    sol2 = {}; lens = {}
    for l in pend:
        oth = {v: x for v, x in orig.items() if v is not mod[l]}
        fs = [subst(subst(f, sol), oth) for f in facts]
        lens[l] = subst(skol(getloc(nx, ('b', l[1], 'len'))), sol)
        sol2[mod[l]] = solve_array(ex, fs, t, init[l], mod[l], subst(subst(posts[l], sol), oth), subst(lens[l], oth))
    fs0 = [subst(subst(f, sol), sol2) for f in facts] + [le(ZERO, t)]
    for l in pend:
        k = fresh('k', 'I'); c = sel(sol2[mod[l]], k); a0 = sel(init[l], k)
        fs = fs0 + [le(ZERO, k), lt(k, subst(lens[l], sol2))]
        z = subst(c, {t: ZERO})
        if z is not a0 and ex.prover.prove(fs, eq(z, a0), 3.0) != 'valid': raise Unsupported('storage invariant not established')
        step = sel(subst(subst(posts[l], sol), sol2), k)
        if ex.prover.prove(fs, eq(step, subst(c, {t: add(t, ONE)})), 10.0) != 'valid': raise Unsupported('storage invariant not inductive')
    sol.update(sol2)

def _under(ex, facts, V, D):
    """simplify V assuming D"""
    m = {}
    for c in tm.conjuncts(D):
        m[c] = TRUE; m[bnot(c)] = FALSE
    v = replace(V, m)
    for u in list(tm.subterms([v])):
        if u.op == 'ite' and not any(z.op == 'bv' for z in u.args[0].vs):
            c = u.args[0]
            if ex.prover.quick(list(facts) + tm.conjuncts(D), c): m[c] = TRUE; m[bnot(c)] = FALSE
            elif ex.prover.quick(list(facts) + tm.conjuncts(D), bnot(c)): m[c] = FALSE; m[bnot(c)] = TRUE
    return replace(v, m)
