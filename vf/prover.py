"""Discharges  facts |- goal  (all free variables universally quantified) with the normaliser, z3 and cvc5."""
import time, os
import z3
from .term import *
from . import term as tm
from . import refute

STATS = {'z3': 0, 'normaliser': 0, 'queries': 0, 'z3_time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0, 'split': 0}
QUICK_MS = 400
FULL_MS = 4000

_z = {}
_fn = {}
def _func(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _fn.get(k)
    if f is None:
        f = _fn[k] = z3.Function(name, *sorts)
    return f
_S = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}

class Tr:
    """translation; binder terms become constants (mapped through rep)"""
    def __init__(self, native=False):
        self.native = native
        self.memo = {}
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._tr(t)
        return r
    def _tr(self, t):
        op = t.op; a = t.args
        if op == 'num':
            return z3.IntVal(int(a[0])) if t.sort == 'I' and a[0].denominator == 1 else z3.Q(a[0].numerator, a[0].denominator)
        if op in ('var', 'bvar'):
            return z3.Const(a[0] + '@' + t.sort, _S[t.sort])
        if op == 'bv':
            return z3.Const('bv%d_%d@%s' % (a[0], a[1], t.sort), _S[t.sort])
        if op == 'poly':
            parts = []
            rat = t.sort == 'I' and any(c.denominator != 1 for c, m in a)
            for c, m in a:
                if m == ():
                    parts.append(self._num(c, t.sort, rat)); continue
                if len(m) == 1 and m[0][1] == 1:
                    x = self(m[0][0])
                else:
                    x = self.mono(m, t.sort)
                if rat: x = z3.ToReal(x)
                if c == 1: parts.append(x)
                else: parts.append(self._num(c, t.sort, rat) * x)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
            if rat: r = z3.ToInt(r)
            return r
        if op == 'sel':
            if a[0].op == 'abase':
                f = _func(a[0].args[0] + '@' + t.sort, _S['I'], _S[t.sort])
                return f(self(a[1]))
            return self.opaque(t)
        if op == 'app':
            if any(isinstance(x, T) and x.sort in ('AI', 'AR') for x in a[1:]):
                return self.opaque(t)
            ar = [self(x) for x in a[1:]]
            f = _func('f_' + a[0] + '@' + t.sort, *([x.sort() for x in ar] + [_S[t.sort]]))
            return f(*ar)
        if op == 'ite':
            return z3.If(self(a[0]), self(a[1]), self(a[2]))
        if op == 'i2r': return z3.ToReal(self(a[0]))
        if op == 'r2i':
            x = self(a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == 'idiv':
            if isnum(a[1]) and numval(a[1]) > 0:
                return self(a[0]) / self(a[1])
            return self.opaque(t)
        if op == 'imod':
            return self.opaque(t)
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'not': return z3.Not(self(a[0]))
        if op == 'and': return z3.And([self(x) for x in a])
        if op == 'or': return z3.Or([self(x) for x in a])
        if op == 'le0': return self(a[0]) <= 0
        if op == 'lt0': return self(a[0]) < 0
        if op == 'eq0': return self(a[0]) == 0
        if op in BINDERS or op == 'abase':
            return self.opaque(t)
        raise AssertionError(op)
    def _num(self, c, sort, rat):
        if sort == 'I' and not rat: return z3.IntVal(int(c))
        return z3.Q(c.numerator, c.denominator)
    def opaque(self, t):
        s = _S.get(t.sort)
        if s is None: s = z3.ArraySort(_S['I'], _S['I' if t.sort == 'AI' else 'R'])
        return z3.Const('op%d@%s' % (t.id, t.sort), s)
    def mono(self, m, sort):
        if self.native:
            r = None
            for x, e in m:
                for _ in range(e):
                    r = self(x) if r is None else r * self(x)
            return r
        k = '_'.join('%d^%d' % (x.id, e) for x, e in m)
        return z3.Const('m%s@%s' % (k, sort), _S[sort])

TR = Tr(False)
TRN = Tr(True)

def replace(t, m, memo=None):
    """replace arbitrary closed subterms (keys) by closed terms; renormalises"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.op in ('num', 'var', 'bvar', 'bv', 'abase', 'true', 'false'):
        r = t
    elif t.op in BINDERS:
        depth, closed, bodies, extra = t.args
        nc = tuple(replace(a, m, memo) for a in closed)
        nb = tuple(replace(b, m, memo) for b in bodies)
        if nc == closed and nb == bodies: r = t
        else:
            bvs = tm.bvars_of(t)
            fr = [fresh('o', b.sort) for b in bvs]
            mm = dict(zip(bvs, fr))
            nb = tuple(subst(b, mm) for b in nb)
            r = tm._binder_norm(t.op, nc, fr, nb, extra, t.sort, None)
    else:
        r = tm._rebuild(t, lambda x: replace(x, m, memo))
    memo[t] = r
    return r

def _elim_eqs(facts, goal):
    """use x == t facts to eliminate variables"""
    facts = list(facts)
    for _ in range(12):
        hit = None
        for i, f in enumerate(facts):
            if f.op == 'eq0':
                p = f.args[0]
                for x in sorted(tm.atoms_of_poly(p), key=lambda x: -x.id):
                    if x.op == 'var':
                        l = tm.lin_in(p, x)
                        if l and l[0].op == 'num' and (x.sort == 'R' or abs(l[0].args[0]) == 1):
                            hit = (i, x, scale(-1 / l[0].args[0], l[1])); break
                if hit: break
        if not hit: break
        i, x, v = hit
        m = {x: v}; memo = {}
        facts = [subst(f, m, memo) for j, f in enumerate(facts) if j != i]
        facts = _flat(facts)
        goal = subst(goal, m, memo)
    return facts, goal

_HASDIV = {}
def _hasdiv(t):
    """does a quotient or remainder occur anywhere in t"""
    r = _HASDIV.get(t)
    if r is None:
        if t.op in ('idiv', 'imod'): r = True
        elif t.op == 'poly': r = any(_hasdiv(a) for c, m in t.args for a, e in m)
        elif t.op in tm.BINDERS: r = any(_hasdiv(a) for a in t.args[1]) or any(_hasdiv(a) for a in t.args[2])
        else: r = any(_hasdiv(a) for a in t.args if isinstance(a, T))
        _HASDIV[t] = r
    return r
def _ranged_digits(facts, goal):
    """(d*q + r) div d = q and (d*q + r) mod d = r for every variable r with 0 <= r < d, under sums and folds too"""
    if not _hasdiv(goal): return goal
    low = set(); up = {}
    for f in facts:
        if f.op != 'le0' or f.args[0].sort != 'I': continue
        for x in tm.atoms_of_poly(f.args[0]):
            if x.op not in ('var', 'bvar'): continue
            l = tm.lin_in(f.args[0], x)
            if l is None: continue
            if l[0] is ONE: up.setdefault(x, set()).add(sub(ONE, l[1]))
            elif l[0] is I(-1) and l[1] is ZERO: low.add(x)
    bounds = {x: up[x] for x in low if x in up}
    def go(t, bounds, memo):
        if t in memo: return memo[t]
        if not _hasdiv(t): return t
        if t.op in tm.BINDERS:
            bs = tm.bvars_of(t); fr = [fresh('b', x.sort) for x in bs]; mm = dict(zip(bs, fr))
            closed = tuple(go(a, bounds, memo) for a in t.args[1])
            b2 = dict(bounds)
            if t.op != 'lam': b2[fr[0]] = {closed[0]}
            bodies = tuple(go(subst(b, mm), b2, {}) for b in t.args[2])
            r = tm._binder_norm(t.op, closed, fr, bodies, t.args[3], t.sort, None)
        else:
            r = tm._rebuild(t, lambda a: go(a, bounds, memo))
            if r.op in ('idiv', 'imod'):
                x, d = r.args
                if x in bounds and d in bounds[x]: r = ZERO if r.op == 'idiv' else x
                elif not isnum(d):
                    pq = polydiv(x, d)
                    if pq is not None and pq[1] in bounds and d in bounds[pq[1]]: r = pq[0] if r.op == 'idiv' else pq[1]
        memo[t] = r
        return r
    return go(goal, bounds, {})

def _flat(fs):
    out = []
    for f in fs:
        if f.op == 'and': out.extend(f.args)
        elif f is not TRUE: out.append(f)
    return list(dict.fromkeys(out))

def polydiv(a, d):
    """polynomial division a = q*d + r with integer coefficients, by the leading monomial of d"""
    def deg(m): return sum(e for _, e in m)
    items = [(c, m) for c, m in tm.poly_items(d)]
    if not items or any(m == () and len(items) == 1 for c, m in items): return None
    key = lambda cm: (deg(cm[1]), tuple(sorted((x.id, e) for x, e in cm[1])))
    top = max(deg(m) for c, m in items)
    items = [x for x in items if deg(x[1]) == top and abs(x[0]) == 1]
    if not items: return None
    lc, lm = max(items, key=key)
    ld = dict(lm)
    q = ZERO; rem = a; r = ZERO
    for _ in range(40):
        its = list(tm.poly_items(rem))
        its = [x for x in its if x[0] != 0]
        if not its: break
        hit = None
        for c, m in sorted(its, key=key, reverse=True):
            md = dict(m)
            if m != () and all(md.get(x, 0) >= e for x, e in ld.items()):
                hit = (c, m, md); break
        if hit is None:
            r = rem; rem = ZERO; break
        c, m, md = hit
        y = tuple((x, e - ld.get(x, 0)) for x, e in m if e - ld.get(x, 0) > 0)
        qt = tm._mkpoly({y: c / lc}, 'I')
        q = add(q, qt); rem = sub(rem, mul(qt, d))
    else:
        return None
    return q, r

def poly_root(d):
    """b with b * b == d, for a polynomial d of several monomials"""
    its = tm.poly_items(d)
    if len(its) < 2: return None
    for c, m in its:
        if c == 1 and len(m) == 1 and m[0][1] == 2:
            x = m[0][0]; b = x
            for c2, m2 in its:
                if (x, 1) in m2: b = add(b, tm._mkpoly({tuple(z for z in m2 if z != (x, 1)): c2 / 2}, 'I'))
            if mul(b, b) is d: return b
    return None

_PAIRS = {}
def _int_lemmas(terms):
    """instantiate monotonicity / euclid lemmas for non-linear integer monomials"""
    monos = {}
    idivs = set(); bounds = [t for t in terms if t.op == 'le0' and t.args[0].sort == 'I']
    for t in terms:
        if t.sort == 'I':
            for c, m in tm.poly_items(t):
                if m != () and (len(m) > 1 or m[0][1] > 1):
                    monos[m] = 1
            if t.op == 'idiv' and not isnum(t.args[1]): idivs.add((t.args[0], t.args[1]))
            if t.op == 'imod' and not isnum(t.args[1]): idivs.add((t.args[0], t.args[1]))
    out = []
    def mk(m): return tm._mkpoly({m: Fraction(1)}, 'I')
    ml = list(monos)
    # products with a quotient: q*d = a - r
    prods = [(m, mk(m)) for m in ml]
    seen = set()
    def pair(x, y, W, xW, yW):
        key = (x, y, W)
        if key in seen: return
        seen.add(key)
        if x is y: return
        key = (x, y, W, xW, yW)
        ls = _PAIRS.get(key)
        if ls is None:
            ls = _PAIRS[key] = (implies(band(le(ZERO, W), lt(x, y)), le(xW, sub(yW, W))),
                                implies(band(le(ZERO, W), lt(y, x)), le(yW, sub(xW, W))),
                                implies(eq(x, y), eq(xW, yW)))
        out.extend(ls)
    for m in ml:
        atoms = [mk(((a, e),)) for a, e in m]
        out.append(implies(band(*[le(ZERO, a) for a in atoms]), le(ZERO, mk(m))))
        if any(e % 2 == 0 for a, e in m) and len(m) == 1:
            out.append(le(ZERO, mk(m)))
    for i in range(len(ml)):
        d1 = dict(ml[i])
        # versus each own sub-monomial as W with y = 1
        for a, e in ml[i]:
            rest = tuple((b, f - (1 if b is a else 0)) for b, f in ml[i] if not (b is a and f == 1))
            W = mk(rest) if rest else ONE
            pair(a, ONE, W, mk(ml[i]), W)
            pair(a, ZERO, W, mk(ml[i]), ZERO)
            if len(ml[i]) > 2:
                Wa = a; x = mk(rest)
                pair(x, ONE, Wa, mk(ml[i]), Wa)
        for j in range(i + 1, len(ml)):
            d2 = dict(ml[j])
            g = {a: min(e, d2[a]) for a, e in d1.items() if a in d2}
            if not g: continue
            gm = tuple(sorted(g.items(), key=lambda ae: ae[0].id))
            x = tuple((a, e - g.get(a, 0)) for a, e in ml[i] if e - g.get(a, 0) > 0)
            y = tuple((a, e - g.get(a, 0)) for a, e in ml[j] if e - g.get(a, 0) > 0)
            W = mk(gm)
            pair(mk(x) if x else ONE, mk(y) if y else ONE, W, mk(ml[i]), mk(ml[j]))
    for a, d in idivs:
        q = idiv(a, d); r = imod(a, d)
        pq = polydiv(a, d)
        if pq is not None and pq[0] is not ZERO:
            out.append(implies(band(le(ONE, d), le(ZERO, pq[1]), lt(pq[1], d)), band(eq(q, pq[0]), eq(r, pq[1]))))
        out.append(implies(le(ONE, d), band(le(ZERO, r), lt(r, d))))
        out.append(implies(band(le(ONE, d), le(ZERO, a)), band(le(ZERO, q), le(q, a))))
        out.append(implies(band(le(ONE, d), lt(a, ZERO)), lt(q, ZERO)))
        qd = sub(a, r)
        pair(q, ONE, d, qd, d); pair(q, ZERO, d, qd, ZERO)
        pd = tm.poly_items(d)
        if len(pd) == 1:
            dm = dict(pd[0][1])
            for m in ml:
                mmd = dict(m)
                if all(mmd.get(x, 0) >= e for x, e in dm.items()):
                    y = tuple((x, e - dm.get(x, 0)) for x, e in m if e - dm.get(x, 0) > 0)
                    pair(q, mk(y) if y else ONE, d, qd, mk(m))
                    if len(y) > 1:
                        for z, e in y:
                            if e == 1:
                                V = tuple(x for x in y if x[0] is not z)
                                pair(q, z, mul(mk(V), d), mul(mk(V), qd), mk(m))
        else:
            for t in bounds:            # a <= u: compare the quotient with that of u
                u = sub(a, t.args[0])
                pq = polydiv(u, d) if not a.vs & u.vs - d.vs else None
                if pq is not None and not isnum(pq[0]): pair(q, pq[0], d, qd, mul(pq[0], d))
                l = add(a, t.args[0])          # l <= a
                if not a.vs & l.vs - d.vs:
                    pq = polydiv(l, d)
                    if pq is not None and not isnum(pq[0]): pair(q, pq[0], d, qd, mul(pq[0], d))
        for a2, d2 in idivs:
            if d2 is d and a2 is not a:
                q2 = idiv(a2, d2)
                pair(q, q2, d, qd, sub(a2, imod(a2, d2)))
    for a, d in idivs:      # the digits of a number: a = e div b
        if a.op == 'idiv' and not isnum(a.args[1]):
            e, b = a.args
            out.append(implies(band(le(ONE, d), le(ONE, b)), eq(mul(b, imod(a, d)), sub(imod(e, mul(b, d)), imod(e, b)))))
    return [l for l in out if l is not TRUE]

def _product_lemmas(terms, facts):
    """a fact f <= 0 times a non-negative factor, where every product is a monomial that occurs anyway"""
    monos = set()
    for t in terms:
        if t.sort == 'I':
            for c, m in tm.poly_items(t):
                if sum(e for _, e in m) > 1: monos.add(m)
    if len(monos) < 2: return []
    factors = {a for m in monos for a, e in m}
    out = []
    for f in facts:
        if f.op != 'le0' or f.args[0].sort != 'I': continue
        its = list(tm.poly_items(f.args[0]))
        if len(its) < 3: continue
        for w in sorted(factors, key=lambda a: a.id):
            p = mul(w, f.args[0])
            ok = 0
            for c, m in tm.poly_items(p):
                if sum(e for _, e in m) < 2: continue
                if m not in monos: break
                ok += 1
            else:
                if ok > 1: out.append(implies(le(ZERO, w), le(p, ZERO)))
    return out

def _row_lemmas(goal):
    """B*q + r against zero, for a base B that is itself a sum: decided by q, then by r"""
    out = []
    for t in tm.subterms([goal]):
        if t.op != 'le0' or t.args[0].sort != 'I': continue
        p = t.args[0]; its = list(tm.poly_items(p)); seen = set()
        if len(its) < 5: continue
        for x in sorted({a for c, m in its for a, e in m}, key=lambda a: a.id):
            l = tm.lin_in(p, x)
            if l is None: continue
            B = l[0]
            if len(tm.poly_items(B)) < 2 or B in seen: continue
            seen.add(B)
            qr = polydiv(p, B)
            if qr is None or qr[0] is ZERO: continue
            q, r = qr
            out.append(implies(band(le(ZERO, B), le(q, I(-1)), le(r, B)), t))
            out.append(implies(band(le(ZERO, B), le(ZERO, q), le(ONE, r)), bnot(t)))
            out.append(implies(band(le(ZERO, B), le(q, ZERO), le(r, ZERO)), t))
    return [o for o in out if o is not TRUE]

class Prover:
    def __init__(self):
        self.qmemo = {}
        self.depth = 0
        self.deadline = None
        self.last_model = None

    # -------- quick entailment
    def quick(self, facts, goal):
        if goal is TRUE: return True
        if goal is FALSE:
            pass
        if goal in facts: return True
        key = (frozenset(facts), goal)
        r = self.qmemo.get(key)
        if r is not None: return r
        r = self._smt(facts, goal, QUICK_MS) == 'valid'
        self.qmemo[key] = r
        return r

    def inconsistent(self, facts):
        return self.quick(facts, FALSE)

    def _relevant(self, facts, goal):
        if goal is FALSE or len(facts) < 8: return facts
        # cone of influence over variables and symbols
        def syms(t): return t.vs
        want = set(syms(goal)); rest = list(facts); out = []
        ch = True
        while ch:
            ch = False; nr = []
            for f in rest:
                if f.vs & want:
                    out.append(f); new = f.vs - want
                    if new: want |= new; ch = True
                else: nr.append(f)
            rest = nr
        return out

    def _smt(self, facts, goal, ms, native=False, want_model=False):
        if goal is TRUE:
            return 'valid'
        facts = _flat(facts)
        if FALSE in facts: return 'valid'
        facts, goal = _elim_eqs(facts, goal)
        if goal is TRUE: return 'valid'
        if FALSE in facts: return 'valid'
        fs = set(facts)
        if goal in fs: return 'valid'
        facts = self._relevant(facts, goal)
        STATS['queries'] += 1
        terms = tm.subterms(list(facts) + [goal])
        extra = list(_int_lemmas(terms))
        extra += self._binder_axioms(terms, facts)
        extra += _product_lemmas(terms, facts)
        extra += _row_lemmas(goal)
        if extra:
            t2 = tm.subterms(extra) - terms
            if any(t.op in ('idiv', 'imod') or t.op in BINDERS for t in t2):
                extra += [x for x in _int_lemmas(terms | t2) if x not in extra]
        tr = TRN if native else TR
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        for f in facts: s.add(tr(f))
        for f in extra: s.add(tr(f))
        for t in terms:
            if t.op == 'app' and t.args[0] in ('exp', 'cosh') :
                s.add(tr(t) > 0)
            elif t.op == 'app' and t.args[0] == 'sqrt':
                s.add(tr(t) >= 0)
            elif t.op == 'app' and t.args[0] == 'inv':
                x = tr(t.args[1]); y = tr(t)
                s.add(z3.Implies(x > 0, y > 0), z3.Implies(x < 0, y < 0))
        s.add(z3.Not(tr(goal)))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS['z3_time'] += time.time() - t0
        if r == z3.unsat:
            return 'valid'
        if r == z3.sat:
            if want_model: self.last_model = s.model()
            return 'sat'
        return 'unknown'

    def _binder_axioms(self, terms, facts):
        out = []
        bs = [t for t in terms if t.op in ('sum', 'fold', 'first')]
        for t in bs:
            n = t.args[1][0]
            if t.op == 'first':
                b = tm.bvars_of(t)[0]
                ax = band(le(ZERO, t), implies(lt(t, n), subst(t.args[2][0], {b: t})), implies(le(ZERO, n), le(t, n)))
                out.append(ax)
                # instantiate "no earlier hit" at index terms occurring in the query
                idx = set()
                for u in terms:
                    if u.op == 'sel' and u.args[1].sort == 'I': idx.add(u.args[1])
                    if u.op == 'var' and u.sort == 'I': idx.add(u)
                    if u.op == 'first' and u is not t: idx.add(u)
                for u in list(idx)[:12]:
                    if u is t: continue
                    out.append(implies(band(le(ZERO, u), lt(u, t), lt(u, n)), bnot(subst(t.args[2][0], {b: u}))))
            elif t.op == 'sum':
                out.append(implies(le(n, ZERO), eq(t, num(0, t.sort))))
            elif t.op == 'fold':
                out.append(implies(le(n, ZERO), eq(t, t.args[1][1 + t.args[3]])))
                out += position_fact(t)
        for t in terms:
            if t.op == 'app' and t.args[0] == '$shuffle':     # positions of a reordered list of n elements
                out.append(implies(band(le(ZERO, t.args[3]), lt(t.args[3], t.args[2])), band(le(ZERO, t), lt(t, t.args[2]))))
        # unfolding between n and n+1
        for t in bs:
            if t.op == 'first': continue
            for u in bs:
                if u.op == t.op and u is not t:
                    d = sub(t.args[1][0], u.args[1][0])
                    if d is ONE:
                        nn = u.args[1][0]
                        if t.op == 'sum':
                            b1 = tm.inst1(t, nn)
                            if _same_bodies(t, u):
                                out.append(implies(le(ZERO, nn), eq(t, add(u, b1))))
                        elif t.op == 'fold' and _same_bodies(t, u) and t.args[1][1:] == u.args[1][1:]:
                            k = len(t.args[1]) - 1
                            bvs = tm.bvars_of(t)
                            m = {bvs[0]: nn}
                            for i in range(k):
                                m[bvs[i + 1]] = tm._mk('fold', (u.args[0], u.args[1], u.args[2], i), u.args[1][1 + i].sort)
                            out.append(implies(le(ZERO, nn), eq(t, subst(t.args[2][t.args[3]], m))))
        return [o for o in out if o is not TRUE]

    # -------- full proof
    def prove(self, facts, goal, budget=20.0):
        """returns 'valid' | 'sat' | 'unknown' """
        self.deadline = time.time() + budget
        facts = _flat(facts)
        return self._prove(facts, goal, 0)

    def _prove(self, facts, goal, depth):
        if goal is TRUE:
            STATS['normaliser'] += 1
            return 'valid'
        if FALSE in facts:
            STATS['normaliser'] += 1
            return 'valid'
        facts, goal = _elim_eqs(facts, goal)
        goal = self._lit_simpl(facts, goal)
        if goal is TRUE or FALSE in facts:
            STATS['normaliser'] += 1
            return 'valid'
        if goal.op == 'and':
            worst = 'valid'
            for g in goal.args:
                r = self._prove(facts, g, depth)
                if r != 'valid': return r
            return worst
        goal = _ranged_digits(facts, goal)
        if goal is TRUE:
            STATS['normaliser'] += 1
            return 'valid'
        facts, goal = self._change_digits(facts, goal)
        if refute.fails(facts, goal):
            self.last_fail = (facts, goal); return 'sat'
        # cheap attempt
        r = self._smt(facts, goal, 1500, want_model=True)
        if r == 'valid':
            STATS['z3'] += 1
            return 'valid'
        # contextual simplification
        g2, f2 = self._simplify(facts, goal)
        if g2 is TRUE:
            STATS['z3'] += 1
            return 'valid'
        g2 = self._equate(f2, g2, depth)
        if g2 is TRUE:
            STATS['z3'] += 1
            return 'valid'
        r = self._smt(f2, g2, FULL_MS, want_model=True)
        if r == 'valid':
            STATS['z3'] += 1
            return 'valid'
        if time.time() < self.deadline:
            g3 = self._simp_binders(f2, g2)
            if g3 is not g2:
                g3, f2 = self._simplify(f2, g3)
                g2 = g3 = self._equate(f2, g3, depth)
                if g3 is TRUE: return 'valid'
                if self._smt(f2, g3, FULL_MS, want_model=True) == 'valid':
                    STATS['z3'] += 1
                    return 'valid'
        # case split on an ite condition
        if depth < 6 and time.time() < self.deadline:
            c = self._split_cond(g2)
            if c is not None:
                STATS['split'] += 1
                ra = self._prove(_flat(f2 + [c]), replace(g2, {c: TRUE, bnot(c): FALSE}), depth + 1)
                if ra != 'valid': return ra
                return self._prove(_flat(f2 + [bnot(c)]), replace(g2, {c: FALSE, bnot(c): TRUE}), depth + 1)
        if time.time() < self.deadline:
            r2 = self._smt(f2, g2, FULL_MS, native=True)
            if r2 == 'valid':
                STATS['z3'] += 1
                return 'valid'
        self.last_fail = (f2, g2)
        return 'unknown'

    def _change_digits(self, facts, goal):
        """an index taken apart by two or more bases: replace it by its digits, which become the variables"""
        def desc(t):
            if t.op == 'var': return t, ONE, None
            if t.op not in ('idiv', 'imod') or isnum(t.args[1]): return None
            r = desc(t.args[0])
            if r is None: return None
            v, lo, hi = r
            if v in t.args[1].vs: return None
            b = mul(lo, t.args[1])
            return (v, b, hi) if t.op == 'idiv' else (v, lo, b)
        ds = {}; terms = tm.subterms([goal])
        for t in terms:
            if t.op in ('idiv', 'imod'):
                r = desc(t)
                if r: ds.setdefault(r[0], {})[t] = r
        for v, use in sorted(ds.items(), key=lambda kv: kv[0].id):
            bases = {b for _, lo, hi in use.values() for b in (lo, hi) if b is not None and b is not ONE}
            if len(bases) < 2: continue
            for t in tm.subterms(facts):
                if t.op in ('idiv', 'imod') and v in t.vs:
                    r = desc(t)
                    if r and r[0] is v: use[t] = r; bases |= {b for b in r[1:] if b is not None and b is not ONE}
            chain = [ONE] + sorted(bases, key=lambda b: (max(sum(x for _, x in m) for _, m in tm.poly_items(b)), b.id))
            ratios = []
            for a, b in zip(chain, chain[1:]):
                pq = (b, ZERO) if a is ONE else polydiv(b, a)
                if pq is None or pq[1] is not ZERO or not self.quick(facts, le(ONE, pq[0])): break
                ratios.append(pq[0])
            else:
                dig = [fresh('l', 'I') for _ in ratios] + [fresh('q', 'I')]
                if self.quick(facts, band(le(ZERO, v), lt(v, chain[-1]))): dig[-1] = ZERO
                def value(lo, hi):
                    i = chain.index(lo); j = len(dig) if hi is None else chain.index(hi)
                    out = ZERO; unit = ONE
                    for n in range(i, j):
                        out = add(out, mul(unit, dig[n]))
                        if n < len(ratios): unit = mul(unit, ratios[n])
                    return out
                m = {t: value(lo, hi) for t, (_, lo, hi) in use.items() if hi is None or chain.index(lo) <= chain.index(hi)}
                if len(m) < len(use): continue
                m[v] = value(ONE, None)
                new = [le(ZERO, l) for l in dig[:-1]] + [lt(l, r) for l, r in zip(dig, ratios)]
                if self.quick(facts, le(ZERO, v)): new.append(le(ZERO, dig[-1]))
                for f in facts:         # v < u
                    if f.op == 'le0':
                        l = tm.lin_in(f.args[0], v)
                        if l is not None and l[0] is ONE:
                            pq = polydiv(neg(sub(l[1], ONE)), chain[-1])
                            if pq is not None and pq[1] is ZERO: new.append(lt(dig[-1], pq[0]))
                memo = {}
                facts = _flat([replace(f, m, memo) for f in facts] + new); goal = replace(goal, m, memo)
        return facts, goal

    def _lit_simpl(self, facts, goal):
        m = {}
        for f in facts:
            if f.op in ('le0', 'lt0', 'eq0', 'bvar', 'not', 'or', 'app'):
                m[f] = TRUE; m[bnot(f)] = FALSE
                if f.op == 'lt0':
                    m[tm._le0(f.args[0])] = TRUE
                    m[tm._le0(neg(f.args[0]))] = FALSE
        if not m: return goal
        return replace(goal, m)

    def _split_cond(self, g):
        best = None
        for t in tm.subterms([g]):
            if t.op == 'ite':
                c = t.args[0]
                cs = [x for x in ([c] if c.op not in ('and', 'or') else list(c.args))]
                for x in cs:
                    if x.op == 'not': x = x.args[0]
                    if x.op in ('and', 'or'): continue
                    if any(v.op == 'bv' for v in x.vs): continue
                    if best is None or x.id < best.id: best = x
        # conditions inside binders that are closed
        if best is None:
            st = [g]; seen = set()
            while st:
                t = st.pop()
                if t in seen: continue
                seen.add(t)
                if t.op == 'ite' and not any(v.op == 'bv' for v in t.args[0].vs):
                    c = t.args[0]
                    for x in ([c] if c.op not in ('and', 'or') else c.args):
                        if x.op not in ('and', 'or', 'true', 'false'):
                            return x
                if t.op == 'poly':
                    for c, m in t.args: st.extend(a for a, e in m)
                elif t.op in BINDERS:
                    st.extend(t.args[1]); st.extend(t.args[2])
                else: st.extend(a for a in t.args if isinstance(a, T))
        return best

    def _simplify(self, facts, goal, rounds=6):
        """resolve ite conditions and symbolic div/mod under the facts"""
        g = goal
        f2 = list(facts)
        for _ in range(rounds):
            if g is TRUE or time.time() > self.deadline: break
            m = {}
            for t in sorted(tm.subterms([g]), key=lambda t: t.id):
                if t.op == 'ite':
                    c = t.args[0]
                    if c in m or any(v.op == 'bv' for v in c.vs): continue
                    if self.quick(f2, c): m[c] = TRUE; m[bnot(c)] = FALSE
                    elif self.quick(f2, bnot(c)): m[c] = FALSE; m[bnot(c)] = TRUE
                elif t.op in ('idiv', 'imod') and not isnum(t.args[1]):
                    r = self.divmod_simplify(f2, t)
                    if r is not None: m[t] = r
                elif t.op in ('sum', 'fold', 'first'):
                    pass
                if m and t.op in ('idiv', 'imod'): break
            if not m: break
            g = replace(g, m)
        return g, f2

    def _simp_binders(self, facts, goal, level=0):
        """simplify the bodies of sums, folds and searches under the range of their index"""
        if level > 5 or time.time() > self.deadline: return goal
        m = {}
        for t in sorted(tm.subterms([goal]), key=lambda t: t.id):
            if t.op not in ('sum', 'fold', 'first'): continue
            fr = [fresh('b', x.sort) for x in tm.bvars_of(t)]
            mm = dict(zip(tm.bvars_of(t), fr))
            f2 = list(facts) + [le(ZERO, fr[0]), lt(fr[0], t.args[1][0])]
            old = [subst(b, mm) for b in t.args[2]]
            new = []
            for b in old:
                b = self._simp_binders(f2, b, level + 1)
                new.append(self._simplify(f2, b)[0])
            if new != old:
                m[t] = tm._binder_norm(t.op, t.args[1], fr, tuple(new), t.args[3], t.sort, None)
        return replace(goal, m) if m else goal

    def _nested_divmod(self, facts, t):
        a, d = t.args
        if a.op not in ('idiv', 'imod') or a.args[1].op == 'num' or not self.quick(facts, band(le(ONE, d), le(ONE, a.args[1]))): return None
        e, b = a.args
        if t.op == 'idiv' and a.op == 'idiv': return idiv(e, mul(d, b))
        if a.op == 'imod':
            pq = polydiv(b, d)
            if pq is None or pq[1] is not ZERO or not self.quick(facts, le(ONE, pq[0])): return None
            if t.op == 'imod': return imod(e, d)
            return imod(idiv(e, d), pq[0])
        return None

    def _digits(self, facts, a):
        """a with every number that occurs by quotient and remainder written as quotient * base + remainder"""
        use = {}
        for t in tm.subterms([a]):
            if t.op in ('idiv', 'imod') and not isnum(t.args[1]) and not any(v.op == 'bv' for v in t.vs) and t.args[0].op in ('var', 'bvar', 'idiv', 'imod', 'sel', 'app'):
                use.setdefault(t.args[0], set()).add(t.args[1])
        back = {}
        for e, bases in sorted(use.items(), key=lambda kv: kv[0].id):
            if e not in tm.atoms_of_poly(a): continue
            chain = sorted(bases, key=lambda b: sum(x for _, m in tm.poly_items(b) for _, x in m))
            ratios = []; prev = ONE; ok = True
            for b in chain:
                pq = polydiv(b, prev) if prev is not ONE else (b, ZERO)
                if pq is None or pq[1] is not ZERO or not self.quick(facts, le(ONE, pq[0])): ok = False; break
                ratios.append(pq[0]); prev = b
            if not ok: continue
            m = {}; cur = e; low = ZERO; unit = ONE
            for b, r in zip(chain, ratios):
                q = fresh('dq', 'I'); l = fresh('dr', 'I')
                back[q] = idiv(e, b); back[l] = imod(cur, r)
                low = add(low, mul(unit, l)); unit = b
                m[imod(e, b)] = low; m[idiv(e, b)] = q
                cur = idiv(e, b)
            m[e] = add(mul(unit, q), low)
            # quotients by the smaller bases, through the larger ones
            qs = [m[idiv(e, b)] for b in chain]
            for i in range(len(chain) - 2, -1, -1):
                m[idiv(e, chain[i])] = add(mul(ratios[i + 1], m[idiv(e, chain[i + 1])]), [k for k in back if back[k] is imod(idiv(e, chain[i]), ratios[i + 1])][0])
            out = ZERO
            for c, mono in tm.poly_items(a):
                p = I(c) if c.denominator == 1 else num(c, 'I')
                for x, k in mono:
                    for _ in range(k): p = mul(p, m.get(x, x))
                out = add(out, p)
            a = out
        return a, back

    def divmod_simplify(self, facts, t):
        a, d = t.args
        r = self._nested_divmod(facts, t)
        if r is not None: return r
        b = poly_root(d)
        if b is not None and self.quick(facts, le(ONE, b)):
            q1 = self.divmod_simplify(facts, idiv(a, b))
            q = self.divmod_simplify(facts, idiv(q1, b)) if q1 is not None else None
            if q is not None and q.op != 'idiv': return q if t.op == 'idiv' else sub(a, mul(q, d))
        if len(tm.poly_items(d)) > 1 and any(u.op in ('idiv', 'imod') for u in tm.atoms_of_poly(a)):
            a2, back = self._digits(facts, a)
            pq = polydiv(a2, d) if back else None
            if pq is not None and pq[0] is not ZERO:
                q, r = subst(pq[0], back), subst(pq[1], back)
                if self.quick(facts, band(le(ONE, d), le(ZERO, r), lt(r, d))): return q if t.op == 'idiv' else r
        pq = polydiv(a, d)
        if pq is not None and pq[0] is not ZERO:
            if self.quick(facts, band(le(ONE, d), le(ZERO, pq[1]), lt(pq[1], d))):
                return pq[0] if t.op == 'idiv' else pq[1]
        pd = tm.poly_items(d)
        if len(pd) != 1: return None
        dm = dict(pd[0][1])
        if pd[0][0] != 1: return None
        q = {}; r = {}
        for c, m in tm.poly_items(a):
            md = dict(m)
            if m != () and all(md.get(x, 0) >= e for x, e in dm.items()):
                y = tuple((x, e - dm.get(x, 0)) for x, e in m if e - dm.get(x, 0) > 0)
                q[y] = c
            else: r[m] = c
        rest = tm._mkpoly(r, 'I'); quo = tm._mkpoly(q, 'I')
        for k in (0, -1, 1):
            rr = sub(rest, scale(k, d)) if k else rest
            if self.quick(facts, band(le(ZERO, rr), lt(rr, d))):
                qq = add(quo, I(k))
                return qq if t.op == 'idiv' else rr
        if q and self.quick(facts, le(ONE, d)):
            return add(quo, idiv(rest, d)) if t.op == 'idiv' else imod(rest, d)
        return None

    def lift_divs(self, facts, term):
        """pull multiples of a positive symbolic divisor out of div/mod"""
        for _ in range(6):
            m = {}
            for t in sorted(tm.subterms([term]), key=lambda t: t.id):
                if t.op in ('idiv', 'imod') and not isnum(t.args[1]):
                    r = self.divmod_simplify(facts, t)
                    if r is not None: m[t] = r; break
            if not m: return term
            term = replace(term, m)
        return term

    def equal(self, facts, a, b, depth=0):
        if a is b: return True
        return self._prove(_flat(facts), eq(a, b), depth) == 'valid'

    def _equate(self, facts, goal, depth):
        """merge binder terms that are extensionally equal under the facts (inner-first by recursion)"""
        if depth > 5 or time.time() > self.deadline: return goal
        terms = tm.subterms([goal])
        bs = sorted([t for t in terms if t.op in ('sum', 'fold', 'first') or (t.op == 'app' and any(isinstance(x, T) and x.sort in ('AI', 'AR') for x in t.args[1:]))], key=lambda t: t.id)
        if len(bs) < 2: return goal
        m = {}
        for i in range(len(bs)):
            for j in range(i):
                a, b = bs[j], bs[i]
                if b in m or a in m: continue
                if a.op != b.op or a.sort != b.sort: continue
                if self.binder_equal(facts, a, b, depth + 1):
                    m[b] = a
        if m: goal = replace(goal, m)
        return goal

    def array_equal(self, facts, x, y, depth):
        """extensional equality at every index"""
        if x is y: return True
        if x.sort != y.sort: return False
        k = fresh('x', 'I')
        return self.equal(facts, sel(x, k), sel(y, k), depth)

    def binder_equal(self, facts, a, b, depth):
        if a is b: return True
        if a.sort not in ('AI', 'AR') and refute.differs(facts, a, b): return False
        if a.op == 'app':
            if a.args[0] != b.args[0] or len(a.args) != len(b.args): return False
            for x, y in zip(a.args[1:], b.args[1:]):
                if x is y: continue
                if x.sort in ('AI', 'AR'):
                    if not self.array_equal(facts, x, y, depth): return False
                    continue
                if not self.equal(facts, x, y, depth): return False
            return True
        na, nb = a.args[1][0], b.args[1][0]
        if na is not nb and not self.quick(facts, eq(na, nb)): return False
        if len(a.args[1]) != len(b.args[1]) or a.args[3] != b.args[3]: return False
        if a.op == 'fold':
            for x, y in zip(a.args[1][1:], b.args[1][1:]):
                if x.sort != y.sort: return False
                if x is not y and not self.equal(facts, x, y, depth): return False
        ba = tm.bvars_of(a); bb = tm.bvars_of(b)
        fr = [fresh('e', x.sort) for x in ba]
        f2 = list(facts) + [le(ZERO, fr[0]), lt(fr[0], na)]
        for x, y in zip(a.args[2], b.args[2]):
            x = subst(x, dict(zip(ba, fr))); y = subst(y, dict(zip(bb, fr)))
            if x is y: continue
            if x.sort != y.sort: return False
            if self._prove(_flat(f2), eq(x, y), depth + 1) != 'valid': return False
        return True

def position_fact(t):
    """a running position: every step keeps it or takes the number of the step"""
    if t.sort != 'I': return []
    n = t.args[1][0]; i = t.args[3]; bvs = tm.bvars_of(t); me = bvs[i + 1]; st = bvs[0]
    todo = [t.args[2][i]]
    while todo:
        x = todo.pop()
        if x.op == 'ite': todo += x.args[1:]
        elif x is not me and x is not st: return []
    init = t.args[1][1 + i]
    return [bor(eq(t, init), band(le(ZERO, t), lt(t, n)))] + ([implies(lt(ZERO, n), lt(t, n)), le(ZERO, t)] if init is ZERO else [])

def _same_bodies(t, u):
    if t.args[2] == u.args[2] and t.args[0] == u.args[0]: return True
    bt = tm.bvars_of(t); bu = tm.bvars_of(u)
    if len(bt) != len(bu): return False
    m = dict(zip(bu, bt))
    return all(a is subst(b, m) for a, b in zip(t.args[2], u.args[2]))
