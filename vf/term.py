"""Hash-consed term language with normalising constructors.

Sorts: 'I' (mathematical integers), 'R' (mathematical reals), 'B' (booleans), 'AI'/'AR' (arrays indexed by I).
Integer and real terms are polynomials in normal form over atoms, so equality modulo
associativity/commutativity/distributivity is pointer equality.
Binders (sum, fold, first, lam) bind 'bv' variables numbered by binder depth (alpha-canonical).
"""
from fractions import Fraction
import math
import itertools

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'vs', 'bd', 'np')
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError('symbolic term used as python bool: %s' % show(self))
    # arithmetic sugar
    def __add__(s, o): return add(s, lift(o, s.sort))
    def __radd__(s, o): return add(lift(o, s.sort), s)
    def __sub__(s, o): return sub(s, lift(o, s.sort))
    def __rsub__(s, o): return sub(lift(o, s.sort), s)
    def __mul__(s, o): return mul(s, lift(o, s.sort))
    def __rmul__(s, o): return mul(lift(o, s.sort), s)
    def __truediv__(s, o): return rdiv(s, lift(o, 'R'))
    def __rtruediv__(s, o): return rdiv(lift(o, 'R'), s)
    def __neg__(s): return neg(s)
    def __lt__(s, o): return lt(s, lift(o, s.sort))
    def __le__(s, o): return le(s, lift(o, s.sort))
    def __gt__(s, o): return lt(lift(o, s.sort), s)
    def __ge__(s, o): return le(lift(o, s.sort), s)

_tab = {}
_cnt = itertools.count(1)
_fresh = itertools.count(1)
EMPTY = frozenset()

def _mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt)
    if op in ('var', 'abase', 'bvar'):
        t.vs = frozenset((t,)); t.bd = 0; t.np = False
    elif op == 'bv':
        t.vs = frozenset((t,)); t.bd = 0; t.np = False
    elif op == 'num':
        t.vs = EMPTY; t.bd = 0; t.np = False
    elif op == 'poly':
        vs = set(); bd = 0; np = False
        for c, m in args:
            for a, e in m:
                vs |= a.vs
                if a.bd > bd: bd = a.bd
                np = np or a.np
        t.vs = frozenset(vs); t.bd = bd; t.np = np
    elif op in BINDERS:
        # args = (depth, nbound, closed_args tuple, bodies tuple, extra)
        depth, closed, bodies, extra = args
        vs = set(); bd = depth; np = True
        for a in closed:
            vs |= a.vs
            if a.bd > bd: bd = a.bd
        bvs = set()
        for b in bodies:
            bvs |= b.vs
            if b.bd > bd: bd = b.bd
        vs |= {v for v in bvs if not (v.op == 'bv' and v.args[0] == depth)}
        t.vs = frozenset(vs); t.bd = bd; t.np = np
    else:
        vs = set(); bd = 0; np = False
        for a in args:
            if isinstance(a, T):
                vs |= a.vs
                if a.bd > bd: bd = a.bd
                np = np or a.np
        t.vs = frozenset(vs); t.bd = bd; t.np = np
    _tab[key] = t
    return t

BINDERS = ('sum', 'fold', 'first', 'lam')

# ---------------------------------------------------------------- leaves
def num(v, sort='I'):
    return _mk('num', (Fraction(v),), sort)
def var(name, sort):
    if sort == 'B':
        return _mk('bvar', (name,), 'B')
    if sort in ('AI', 'AR'):
        return _mk('abase', (name,), sort)
    return _mk('var', (name,), sort)
def fresh(prefix, sort):
    return var('%s!%d' % (prefix, next(_fresh)), sort)
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
def I(v): return num(v, 'I')
def R(v): return num(v, 'R')
ZERO = num(0); ONE = num(1); RZERO = num(0, 'R'); RONE = num(1, 'R')
def lift(v, sort):
    if isinstance(v, T):
        if sort == 'R' and v.sort == 'I':
            return i2r(v)
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        v = Fraction(repr(v)) if sort == 'R' else Fraction(v)
    return num(v, sort)
def isnum(t): return t.op == 'num'
def numval(t): return t.args[0]

# ---------------------------------------------------------------- polynomials
def _poly(t):
    """dict mono->coef"""
    if t.op == 'poly':
        return {m: c for c, m in t.args}
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    return {((t, 1),): Fraction(1)}

def _monokey(m):
    return tuple((a.id, e) for a, e in m)

def _mkpoly(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return num(0, sort)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    return _mk('poly', tuple((c, m) for m, c in items), sort)

def _psort(a, b):
    assert a.sort == b.sort, ('sort mismatch', a, a.sort, b, b.sort)
    return a.sort

def add(a, b):
    s = _psort(a, b)
    if isnum(a) and a.args[0] == 0: return b
    if isnum(b) and b.args[0] == 0: return a
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d, s)

def addn(ts, sort):
    d = {}
    for t in ts:
        for m, c in _poly(t).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d, sort)

def scale(c, a):
    if c == 1: return a
    if c == 0: return num(0, a.sort)
    return _mkpoly({m: c * k for m, k in _poly(a).items()}, a.sort)
def neg(a): return scale(Fraction(-1), a)
def sub(a, b):
    if a is b: return num(0, a.sort)
    return add(a, neg(b))

def _mulmono(m1, m2):
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    for a in list(d):
        if a.op == 'app' and a.args[0] == 'inv' and a.args[1].op == 'app' and a.args[1].args[0] == 'exp' and a.args[1] in d:
            x = a.args[1]; k = min(d[a], d[x])      # exp(t) is never 0
            for y in (a, x):
                d[y] -= k
                if not d[y]: del d[y]
    g = None
    for a in d:
        x = a.args[1] if a.op == 'app' and a.args[0] == 'inv' else a
        if isinstance(x, T) and x.op == 'app' and x.args[0] == 'exp':
            its = poly_items(x.args[1])
            if len(its) == 1 and its[0][1] != ():
                if g is None: g = {}
                g.setdefault(its[0][1], []).append((a, its[0][0] * (1 if a is x else -1)))
    if g:
        for m, l in g.items():
            c = sum(k * d[a] for a, k in l)
            for a, k in l: del d[a]
            for a, e in _expmono(m, c): d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items()), key=lambda ae: ae[0].id))

def _expmono(m, c):
    """exp(c*m) as a power of an atom"""
    if c == 0: return []
    k = abs(c)
    n = k.numerator if k.numerator <= 4 and m != () else 1
    x = _mk('app', ('exp', _mkpoly({m: Fraction(k) / n}, 'R')), 'R')
    return [(x if c > 0 else _mk('app', ('inv', x), 'R'), n)]

def _needs_red(m):
    # x*idiv(a,x) -> a - imod(a,x);   sqrt(x)*sqrt(x) stays
    for a, e in m:
        if a.op == 'idiv':
            for x in _poly_atoms_of_divisor(a.args[1]):
                pass
    return False

def _idiv_reduce(m):
    """monomial containing idiv(a,d) and all factors of d (d monomial with coef 1)"""
    md = None
    for a, e in m:
        if a.op == 'idiv':
            d = a.args[1]
            pd = _poly(d)
            if len(pd) != 1: continue
            (dm, dc), = pd.items()
            if dm == () : continue
            cnt = dict(m)
            ok = True
            for x, ex in dm:
                if cnt.get(x, 0) < ex: ok = False; break
            if ok:
                rest = dict(m)
                rest[a] -= 1
                for x, ex in dm:
                    rest[x] = rest.get(x, 0) - ex
                rm = tuple(sorted(((x, ex) for x, ex in rest.items() if ex > 0), key=lambda ae: ae[0].id))
                if any(ex < 0 for ex in rest.values()): continue
                return a, dc, rm
    return None

def _ridiv_reduce(m):
    """the same for real monomials: i2r(d) * i2r(a div d), d one symbol"""
    for a, e in m:
        if a.op == 'i2r' and a.args[0].op == 'idiv':
            q = a.args[0]
            for x, ex in m:
                if x.op == 'i2r' and x.args[0] is q.args[1]:
                    rest = dict(m)
                    for y in (a, x):
                        rest[y] -= 1
                        if not rest[y]: del rest[y]
                    return i2r(sub(q.args[0], imod(q.args[0], q.args[1]))), tuple(sorted(rest.items(), key=lambda ae: ae[0].id))
    return None

def mul(a, b):
    s = _psort(a, b)
    if isnum(a): return scale(a.args[0], b)
    if isnum(b): return scale(b.args[0], a)
    d = {}
    extra = []
    pa = _poly(a); pb = _poly(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            if s == 'I':
                r = _idiv_reduce(m)
                if r is not None:
                    q, dc, rm = r
                    # c * q*dm*rm = c/dc * (a - a mod d)*rm
                    inner = sub(q.args[0], imod(q.args[0], q.args[1]))
                    extra.append(scale(c1 * c2 / dc, mul(inner, _mkpoly({rm: Fraction(1)}, s))))
                    continue
            elif len(m) > 1:
                r = _ridiv_reduce(m)
                if r is not None:
                    inner, rm = r
                    extra.append(scale(c1 * c2, mul(inner, _mkpoly({rm: Fraction(1)}, s))))
                    continue
            d[m] = d.get(m, 0) + c1 * c2
    t = _mkpoly(d, s)
    for e in extra:
        t = add(t, e)
    return t

def mul_mono(m, sort):
    t = num(1, sort)
    for a, e in m:
        for _ in range(e):
            t = mul(t, a)
    return t

def power(a, k):
    r = num(1, a.sort)
    for _ in range(k):
        r = mul(r, a)
    return r

# ---------------------------------------------------------------- integer division (floor)
def idiv(a, b):
    if isnum(b):
        bv = numval(b)
        if bv == 1: return a
        if isnum(a) and bv != 0:
            return I(numval(a) // bv)
        if bv > 0:
            # pull out multiples
            q = {}; r = {}
            for m, c in _poly(a).items():
                if c % bv == 0 and m != ():
                    q[m] = c / bv
                elif m == ():
                    f = c // bv
                    if f: q[m] = Fraction(f)
                    if c - f * bv: r[m] = c - f * bv
                else:
                    r[m] = c
            if q:
                rt = _mkpoly(r, 'I')
                return add(_mkpoly(q, 'I'), idiv(rt, b))
    if isnum(a) and numval(a) == 0:
        return ZERO
    if NAMED and (a, b) in NAMED: return NAMED[(a, b)]
    return _mk('idiv', (a, b), 'I')

NAMED = {}      # quotients that have been given a name in the function being verified (SpecCtx.positions)

def imod(a, b):
    if isnum(b):
        bv = numval(b)
        if isnum(a) and bv != 0:
            return I(numval(a) % bv)
        if bv == 1: return ZERO
        if bv > 0:
            return sub(a, scale(bv, idiv(a, b)))
    if isnum(a) and numval(a) == 0:
        return ZERO
    return _mk('imod', (a, b), 'I')

def tdiv(a, b):
    """C truncating division, as a term"""
    if isnum(b) and numval(b) > 0:
        return ite(le(ZERO, a), idiv(a, b), neg(idiv(neg(a), b)))
    return ite(le(ZERO, a),
               ite(le(ONE, b), idiv(a, b), neg(idiv(a, neg(b)))),
               ite(le(ONE, b), neg(idiv(neg(a), b)), idiv(neg(a), neg(b))))

def tmod(a, b):
    return sub(a, mul(tdiv(a, b), b))

# ---------------------------------------------------------------- int/real conversion
def i2r(t):
    if t.sort == 'R': return t
    assert t.sort == 'I', t
    if t.op == 'num': return num(t.args[0], 'R')
    if t.op == 'poly':
        out = RZERO
        for c, m in t.args:
            p = RONE
            for a, e in m:
                for _ in range(e):
                    p = mul(p, i2r(a))
            out = add(out, scale(c, p))
        return out
    if t.op == 'ite':
        return ite(t.args[0], i2r(t.args[1]), i2r(t.args[2]))
    if t.op == 'sum':
        v, body = open1(t)
        return mk_sum(t.args[1][0], v, i2r(body))
    if t.op == 'r2i' and False: return t.args[0]
    return _mk('i2r', (t,), 'R')

def r2i(t):
    if t.sort == 'I': return t
    if t.op == 'num':
        v = t.args[0]
        return I(math.floor(v) if v >= 0 else -math.floor(-v))
    x = as_int(t)
    if x is not None: return x
    return _mk('r2i', (t,), 'I')

def ceil_(t):
    """the smallest integer not below a real"""
    x = as_int(t)
    if x is not None: return x
    if t.op == 'num': return I(math.ceil(t.args[0]))
    return uf('$ceil', 'I', t)

def canonical_fn(n, at):
    """the array k -> at(k) for 0 <= k < n, zero elsewhere"""
    k = fresh('k', 'I')
    if n.op == 'num' and n.args[0] <= 8:
        r = num(0, 'R')
        for i in range(int(n.args[0]) - 1, -1, -1): r = ite(eq(k, I(i)), at(I(i)), r)
        return mk_lam(k, r)
    return mk_lam(k, ite(band(le(ZERO, k), lt(k, n)), at(k), num(0, 'R')))

def as_int(t):
    if t.op == 'num':
        return I(t.args[0]) if t.args[0].denominator == 1 else None
    if t.op == 'i2r': return t.args[0]
    if t.op == 'poly':
        out = ZERO
        for c, m in t.args:
            if c.denominator != 1: return None
            p = ONE
            for a, e in m:
                if a.op != 'i2r': return None
                p = mul(p, power(a.args[0], e))
            out = add(out, scale(c, p))
        return out
    if t.op == 'ite':
        a = as_int(t.args[1]); b = as_int(t.args[2])
        if a is None or b is None: return None
        return ite(t.args[0], a, b)
    return None

# ---------------------------------------------------------------- real functions
E_CONST = Fraction('2.71828182845904523536')
def inv(t):
    if t.op == 'num':
        if t.args[0] == 0:
            return _mk('app', ('inv', t), 'R')
        return num(1 / t.args[0], 'R')
    if t.op == 'poly' and len(t.args) == 1:
        c, m = t.args[0]
        r = num(1 / c, 'R')
        for a, e in m:
            for _ in range(e):
                r = mul(r, inv(a))
        return r
    if t.op == 'app' and t.args[0] == 'inv' and _isexp(t.args[1]): return t.args[1]
    if t.op == 'poly':
        es = {}
        for c, m in t.args:
            for a, e in m:
                if a.op == 'app' and a.args[0] == 'inv' and _isexp(a.args[1]): es[a.args[1]] = max(es.get(a.args[1], 0), e)
        if es:
            f = RONE
            for x in sorted(es, key=lambda x: x.id): f = mul(f, power(x, es[x]))
            return mul(f, inv(mul(f, t)))
    if t.op == 'poly':
        # scale so that the leading coefficient is 1
        c = t.args[0][0]
        if c != 1:
            return scale(1 / c, inv(scale(1 / c, t)))
    if t.op == 'ite':
        return ite(t.args[0], inv(t.args[1]), inv(t.args[2]))
    return _mk('app', ('inv', t), 'R')
def rdiv(a, b): return mul(a, inv(b))
def _isexp(t): return t.op == 'app' and t.args[0] == 'exp'
def _exp(t):
    """exp of a polynomial as a product of powers of exp(monomial), all of positive sign"""
    if t.op == 'ite': return ite(t.args[0], _exp(t.args[1]), _exp(t.args[2]))
    r = RONE
    for m, c in sorted(_poly(t).items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]):
        for x, e in _expmono(m, c): r = mul(r, power(x, e))
    return r

def app(f, *args):
    """real function symbol"""
    args = tuple(args)
    if f == 'pow':
        a, b = args
        if b.op == 'num':
            e = b.args[0]
            if e.denominator == 1 and 0 <= e <= 6:
                return power(a, int(e))
            if e.denominator == 1 and -6 <= e < 0:
                return inv(power(a, int(-e)))
            if e == Fraction(1, 2):
                return app('sqrt', a)
        if a.op == 'num' and a.args[0] == -1 and b.op == 'i2r': return ite(eq(imod(b.args[0], I(2)), ZERO), RONE, num(-1, 'R'))
        if a.op == 'num' and abs(float(a.args[0]) - math.e) < 1e-4:
            return app('exp', b)
    if f == 'exp' and not (args[0].op == 'num' and args[0].args[0] == 1): return _exp(args[0])
    if f in ('sinh', 'cosh', 'tanh'):
        e, g = _exp(args[0]), _exp(neg(args[0]))
        if f == 'sinh': return scale(Fraction(1, 2), sub(e, g))
        if f == 'cosh': return scale(Fraction(1, 2), add(e, g))
        return rdiv(sub(e, g), add(e, g))
    if f == 'sqrt' and args[0].op == 'num':
        v = args[0].args[0]
        if v >= 0:
            n = math.isqrt(v.numerator); d = math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fraction(n, d), 'R')
    if f == 'abs':
        return ite(le(RZERO, args[0]), args[0], neg(args[0]))
    if len(args) == 1 and args[0].op == 'ite':
        c, x, y = args[0].args
        return ite(c, app(f, x), app(f, y))
    if f in ('sin', 'tanh', 'erf', 'sinh', 'atan', 'tan', 'asin', 'asinh', 'cbrt') :
        # odd functions: canonical sign
        x = args[0]
        if x.op == 'num' and x.args[0] == 0: return RZERO
        if _lead(x) < 0: return neg(_mk('app', (f, neg(x)), 'R'))
    if f in ('cos', 'cosh'):
        x = args[0]
        if x.op == 'num' and x.args[0] == 0: return RONE
        if _lead(x) < 0: return _mk('app', (f, neg(x)), 'R')
    return _mk('app', (f,) + args, 'R')

def _lead(t):
    if t.op == 'num': return t.args[0]
    if t.op == 'poly': return t.args[0][0]
    return 1

# ---------------------------------------------------------------- booleans
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0':
        p = a.args[0]
        if p.sort == 'I': return _le0(sub(ONE, p))
        return _lt0(neg(p))
    if a.op == 'lt0':
        return _le0(neg(a.args[0]))
    if a.op == 'and': return bor(*[bnot(x) for x in a.args])
    if a.op == 'or': return band(*[bnot(x) for x in a.args])
    return _mk('not', (a,), 'B')

def band(*xs):
    out = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if isinstance(x, bool): x = TRUE if x else FALSE
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args)); continue
        out[x] = 1
    if not out: return TRUE
    for x in out:
        if bnot(x) in out: return FALSE
    l = list(out)
    if len(l) == 1: return l[0]
    l.sort(key=lambda t: t.id)
    return _mk('and', tuple(l), 'B')

def bor(*xs):
    out = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if isinstance(x, bool): x = TRUE if x else FALSE
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args)); continue
        out[x] = 1
    if not out: return FALSE
    for x in out:
        if bnot(x) in out: return TRUE
    l = list(out)
    if len(l) == 1: return l[0]
    l.sort(key=lambda t: t.id)
    return _mk('or', tuple(l), 'B')

def implies(a, b): return bor(bnot(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return bnot(b)
    if b is FALSE: return bnot(a)
    return band(bor(bnot(a), b), bor(a, bnot(b)))

def _norm_int(p):
    # divide by gcd of non-constant coefs
    g = 0
    for m, c in _poly(p).items():
        if m != (): g = math.gcd(g, abs(c.numerator)) if c.denominator == 1 else 1
    return g or 1

def _le0(p):
    if p.op == 'num': return TRUE if p.args[0] <= 0 else FALSE
    if p.op == 'ite' and p.args[1].op == 'num' and p.args[2].op == 'num':
        return bite(p.args[0], _le0(p.args[1]), _le0(p.args[2]))
    if p.sort == 'I':
        d = _poly(p)
        if all(c.denominator == 1 for c in d.values()):
            g = _norm_int(p)
            if g > 1:
                nd = {m: c / g for m, c in d.items() if m != ()}
                c0 = d.get((), Fraction(0))
                cc = Fraction(math.ceil(c0 / g))
                if cc: nd[()] = cc
                p = _mkpoly(nd, 'I')
            if any(len(m) == 1 and m[0][0].op == 'first' for m in d) and all(m == () or len(m) == 1 and m[0][0].op == 'first' for m in d):     # searches are not negative
                c0 = d.get((), 0); cs = [c for m, c in d.items() if m != ()]
                if c0 > 0 and all(c > 0 for c in cs): return FALSE
                if c0 <= 0 and all(c < 0 for c in cs): return TRUE
    else:
        k = abs(_lead(p))
        if k != 1: p = scale(1 / k, p)
    return _mk('le0', (p,), 'B')

def _lt0(p):
    if p.sort == 'I': return _le0(add(p, ONE))
    if p.op == 'num': return TRUE if p.args[0] < 0 else FALSE
    if p.op == 'ite' and p.args[1].op == 'num' and p.args[2].op == 'num':
        return bite(p.args[0], _lt0(p.args[1]), _lt0(p.args[2]))
    k = abs(_lead(p))
    if k != 1: p = scale(1 / k, p)
    return _mk('lt0', (p,), 'B')

def le(a, b): return _le0(sub(a, b))
def lt(a, b): return _lt0(sub(a, b))

def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return iff(a, b)
    if a.sort != b.sort:
        if a.sort == 'I': a = i2r(a)
        if b.sort == 'I': b = i2r(b)
    p = sub(a, b)
    if p.op == 'num': return TRUE if p.args[0] == 0 else FALSE
    k = _lead(p)
    if p.sort == 'I':
        d = _poly(p)
        g = _norm_int(p)
        c0 = d.get((), Fraction(0))
        if c0.denominator == 1 and c0 % g != 0: return FALSE
        if g > 1: p = scale(Fraction(1, g), p)
        if k < 0: p = neg(p)
    else:
        if k != 1: p = scale(1 / k, p)
    if p.op == 'ite' and p.args[1].op == 'num' and p.args[2].op == 'num':
        return bite(p.args[0], TRUE if p.args[1].args[0] == 0 else FALSE, TRUE if p.args[2].args[0] == 0 else FALSE)
    return _mk('eq0', (p,), 'B')
def ne(a, b): return bnot(eq(a, b))

def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B': return bite(c, a, b)
    if a.sort != b.sort:
        a = i2r(a) if a.sort == 'I' else a
        b = i2r(b) if b.sort == 'I' else b
    if a.sort in ('AI', 'AR'):
        k = fresh('k', 'I')
        return mk_lam(k, ite(c, sel(a, k), sel(b, k)))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op in ('lt0',) :
        # canonical orientation for reals: prefer le0 with positive lead
        pass
    # nested same condition
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # canonical polarity: compare ids of c and not c
    nc = bnot(c)
    if nc.id < c.id and nc.op != 'not':
        c, a, b = nc, b, a
    # common additive part
    if a.op == 'poly' or b.op == 'poly':
        pa = _poly(a); pb = _poly(b)
        com = {m: k for m, k in pa.items() if m != () and pb.get(m) == k}
        if com:
            base = _mkpoly(com, a.sort)
            ra = _mkpoly({m: k for m, k in pa.items() if m not in com}, a.sort)
            rb = _mkpoly({m: k for m, k in pb.items() if m not in com}, a.sort)
            return add(base, ite(c, ra, rb))
    elif False:
        pass
    return _mk('ite', (c, a, b), a.sort)

def rmax(a, b): return ite(le(a, b), b, a)
def rmin(a, b): return ite(le(a, b), a, b)

# ---------------------------------------------------------------- binders
def bv(depth, k, sort):
    if sort == 'B':
        return _mk('bv', (depth, k), 'B')
    return _mk('bv', (depth, k), sort)

def _raw_replace(t, m, memo):
    """replace variables by terms that cannot be captured (no re-opening of binders)"""
    if not (t.vs & m.keys()):
        return t
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.op in BINDERS:
        depth, closed, bodies, extra = t.args
        r = _mk(t.op, (depth, tuple(_raw_replace(a, m, memo) for a in closed),
                       tuple(_raw_replace(b, m, memo) for b in bodies), extra), t.sort)
    else:
        r = _rebuild(t, lambda x: _raw_replace(x, m, memo))
    memo[t] = r
    return r

def _rebuild(t, f):
    op = t.op
    if op == 'poly':
        out = num(0, t.sort)
        acc = {}
        simple = True
        for c, m in t.args:
            ch = [(f(a), e) for a, e in m]
            p = num(c, t.sort)
            for a, e in ch:
                for _ in range(e):
                    p = mul(p, a)
            for mm, cc in _poly(p).items():
                acc[mm] = acc.get(mm, 0) + cc
        return _mkpoly(acc, t.sort)
    a = t.args
    if op == 'idiv': return idiv(f(a[0]), f(a[1]))
    if op == 'imod': return imod(f(a[0]), f(a[1]))
    if op == 'i2r': return i2r(f(a[0]))
    if op == 'r2i': return r2i(f(a[0]))
    if op == 'app':
        if a[0] == 'inv': return inv(f(a[1]))
        if t.sort == 'R' and not a[0].startswith('$'):
            return app(a[0], *[f(x) for x in a[1:]])
        return uf(a[0], t.sort, *[f(x) for x in a[1:]])
    if op == 'ite': return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'not': return bnot(f(a[0]))
    if op == 'and': return band(*[f(x) for x in a])
    if op == 'or': return bor(*[f(x) for x in a])
    if op == 'le0': return _le0(f(a[0]))
    if op == 'lt0': return _lt0(f(a[0]))
    if op == 'eq0':
        x = f(a[0])
        return eq(x, num(0, x.sort))
    if op == 'sel': return sel(f(a[0]), f(a[1]))
    return t

def uf(name, sort, *args):
    """uninterpreted function, args may be arrays; name should start with '$'"""
    return _mk('app', (name,) + tuple(args), sort)

class Capture(Exception): pass
OPENED = 0
def subst(t, m, memo=None):
    """capture-avoiding substitution, renormalising"""
    if not m: return t
    if memo is None: memo = {}
    if not (t.vs & m.keys()):
        return t
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.op in BINDERS:
        depth, closed, bodies, extra = t.args
        rel = [v for k, v in m.items() if k in t.vs]
        if all(v.bd == 0 or v.bd < depth for v in rel) and not any(x.op == 'bv' and x.args[0] <= depth for v in rel for x in v.vs):
            nc = tuple(subst(a, m, memo) for a in closed)
            global OPENED
            OPENED += 1
            try:
                nb = tuple(subst(b, m, memo) for b in bodies)
                r = _binder_norm(t.op, nc, bvars_of(t), nb, extra, t.sort, depth)
            except Capture: r = None
            finally: OPENED -= 1
        if r is None:
            bvs = bvars_of(t)
            fr = [fresh('o', b.sort) for b in bvs]
            m2 = dict(m); m2.update(zip(bvs, fr))
            nc = tuple(subst(a, m, memo) for a in closed)
            mm = {}
            nb = tuple(subst(b, m2, mm) for b in bodies)
            r = _binder_norm(t.op, nc, fr, nb, extra, t.sort, None)
    else:
        r = _rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r

def bvars_of(t):
    depth, closed, bodies, extra = t.args
    if t.op == 'fold':
        return [bv(depth, 0, 'I')] + [bv(depth, i + 1, b.sort) for i, b in enumerate(closed[1:])]
    return [bv(depth, 0, 'I')]

def _close(op, closed, vs, bodies, extra, sort):
    d = 1 + max([b.bd for b in bodies] + [0])
    for b in bodies:
        for v in b.vs:
            if v.op == 'bv' and v.args[0] >= d and v not in vs:
                # the variable of an enclosing binder that is open at this moment must not be captured
                if OPENED and v.args[0] == d: raise Capture()
                if not OPENED: d = v.args[0] + 1
    m = {v: bv(d, i, v.sort) for i, v in enumerate(vs)}
    memo = {}
    nb = tuple(_raw_replace(b, m, memo) for b in bodies)
    return _mk(op, (d, closed, nb, extra), sort)

def _binder_norm(op, closed, vs, bodies, extra, sort, depth):
    if op == 'sum': return mk_sum(closed[0], vs[0], bodies[0])
    if op == 'lam': return mk_lam(vs[0], bodies[0])
    if op == 'first': return mk_first(closed[0], vs[0], bodies[0])
    if op == 'fold': return mk_fold(closed[0], vs[0], list(zip(vs[1:], closed[1:], bodies)), extra)
    raise AssertionError(op)

def open1(t, v=None):
    """open a single-variable binder; returns (fresh var, body)"""
    b = bvars_of(t)[0]
    if v is None: v = fresh('o', 'I')
    return v, subst(t.args[2][0], {b: v})

def inst1(t, arg):
    b = bvars_of(t)[0]
    return subst(t.args[2][0], {b: arg})

def mk_lam(v, body):
    """array  \\v. body"""
    # eta
    if body.op == 'sel' and body.args[1] is v and v not in body.args[0].vs:
        return body.args[0]
    return _close('lam', (), (v,), (body,), None, 'AI' if body.sort == 'I' else 'AR')

def sel(a, i):
    if a.op == 'lam':
        return inst1(a, i)
    return _mk('sel', (a, i), 'I' if a.sort == 'AI' else 'R')

def store(a, i, v):
    k = fresh('k', 'I')
    return mk_lam(k, ite(eq(k, i), v, sel(a, k)))

def lin_in(p, v):
    """p = c*v + rest with c a polynomial not containing v, rest free of v -> (c, rest) else None"""
    c = {}; r = {}
    for m, k in _poly(p).items():
        e = 0; other = []
        for a, ex in m:
            if a is v: e += ex
            elif v in a.vs: return None
            else: other.append((a, ex))
        if e == 0: r[m] = k
        elif e == 1:
            c[tuple(other)] = c.get(tuple(other), 0) + k
        else: return None
    return _mkpoly(c, p.sort), _mkpoly(r, p.sort)

def conjuncts(c):
    return list(c.args) if c.op == 'and' else [c]

def solve_eq_for(cond, v):
    """find a conjunct eq0(p) with p = +-v + rest; returns (value, remaining conjuncts)"""
    cs = conjuncts(cond)
    for i, x in enumerate(cs):
        if x.op == 'eq0' and x.args[0].sort == 'I' and v in x.vs:
            l = lin_in(x.args[0], v)
            if l and l[0].op == 'num' and abs(l[0].args[0]) == 1:
                val = scale(-1 / l[0].args[0], l[1])
                return val, cs[:i] + cs[i+1:]
    return None

MAXEXP = 12

def mk_sum(n, v, body):
    """sum_{0<=v<n} body   (n >= 0 is an invariant of every use)"""
    s = body.sort
    if n.op == 'num':
        k = int(n.args[0])
        if k <= 0: return num(0, s)
        if k <= MAXEXP:
            return addn([subst(body, {v: I(j)}) for j in range(k)], s)
    if v not in body.vs:
        return mul(i2r(n) if s == 'R' else n, body)
    if body.op != 'num':
        inr = {le(ZERO, v): TRUE, lt(v, n): TRUE}       # the range of the index
        from .prover import replace
        b2 = replace(body, inr) if any(u in inr for u in subterms([body])) else body
        if b2 is not body: return mk_sum(n, v, b2)
    out = []
    for m, c in _poly(body).items():
        inn = []; outer = []
        for a, e in m:
            (inn if v in a.vs else outer).append((a, e))
        o = num(c, s)
        for a, e in outer:
            o = mul(o, power(a, e))
        if not inn:
            out.append(mul(o, i2r(n) if s == 'R' else n)); continue
        inn = tuple(inn)
        done = False
        for idx, (a, e) in enumerate(inn):
            if a.op == 'ite':
                cnd, x, y = a.args
                rest = num(1, s)
                for j, (a2, e2) in enumerate(inn):
                    ee = e2 - (1 if j == idx else 0)
                    if ee: rest = mul(rest, power(a2, ee))
                r = _sum_ite(n, v, cnd, mul(x, rest), mul(y, rest))
                if r is not None:
                    out.append(mul(o, r)); done = True
                    break
        if done: continue
        b1 = _mkpoly({inn: Fraction(1)}, s)
        if b1.op == 'poly' and len(b1.args) != 1:
            out.append(mul(o, mk_sum(n, v, b1)))
            continue
        if _runs_down(b1, v):       # the order of a finite sum does not matter: one representative of the two directions
            b2 = subst(b1, {v: sub(sub(n, ONE), v)})
            if not _runs_down(b2, v) or (len(show(b2)), show(b2)) < (len(show(b1)), show(b1)):
                if b2.op == 'poly' and len(b2.args) != 1: out.append(mul(o, mk_sum(n, v, b2))); continue
                b1 = b2
        out.append(mul(o, _close('sum', (n,), (v,), (b1,), None, s)))
    return addn(out, s)

def _runs_down(t, v):
    """does v occur with a negative coefficient in an index?"""
    seen = set(); st = [t]; key = ((v, 1),)
    while st:
        x = st.pop()
        if x in seen or v not in x.vs: continue
        seen.add(x)
        if x.op == 'poly':
            if x.sort == 'I':
                for c, m in x.args:
                    if m == key and c < 0: return True
            for c, m in x.args:
                for a, e in m: st.append(a)
        else:
            def push(y): 
                if isinstance(y, T): st.append(y)
                elif isinstance(y, tuple):
                    for z in y: push(z)
            push(x.args)
    return False

def _sum_ite(n, v, c, x, y):
    s = x.sort
    if v not in c.vs:
        return ite(c, mk_sum(n, v, x), mk_sum(n, v, y))
    for cc, a, b in ((c, x, y), (bnot(c), y, x)):
        # sum ite(cc, a, b) = sum b + sum ite(cc, a-b, 0)
        cs = conjuncts(cc)
        free = [q for q in cs if v not in q.vs]
        dep = [q for q in cs if v in q.vs]
        se = solve_eq_for(cc, v)
        if se is not None:
            val, rest = se
            g = band(le(ZERO, val), lt(val, n), *[subst(q, {v: val}) for q in rest])
            d = subst(sub(a, b), {v: val})
            return add(mk_sum(n, v, b), ite(g, d, num(0, s)))
        if free and b.op == 'num' and b.args[0] == 0:
            return ite(band(*free), mk_sum(n, v, ite(band(*dep), a, b)), num(0, s))
        # single linear bound on v with zero else-branch
        if b.op == 'num' and b.args[0] == 0 and len(dep) == 1 and dep[0].op == 'le0' and dep[0].args[0].sort == 'I':
            l = lin_in(dep[0].args[0], v)
            if l and l[0].op == 'num' and l[0].args[0] == 1:
                # v <= -rest  : trip = clamp(1-rest, 0, n)
                hi = sub(ONE, l[1])
                m2 = ite(le(hi, ZERO), ZERO, ite(le(n, hi), n, hi))
                return mk_sum(m2, v, a)
    # neither branch zero: split so that guards become visible
    if not (y.op == 'num' and y.args[0] == 0) and not (x.op == 'num' and x.args[0] == 0):
        return add(mk_sum(n, v, y), mk_sum(n, v, ite(c, sub(x, y), num(0, s)))) if (v not in y.vs) else None
    return None

def mk_first(n, v, pred):
    """least 0<=v<n with pred, or n.  n may be None-like: num -1 meaning unbounded"""
    if pred is FALSE: return n
    if pred is TRUE: return ZERO if not (n.op == 'num' and n.args[0] == 0) else n
    if n.op == 'num' and 0 <= n.args[0] <= MAXEXP:
        r = n
        for j in reversed(range(int(n.args[0]))):
            r = ite(subst(pred, {v: I(j)}), I(j), r)
        return r
    if v not in pred.vs:
        return ite(pred, ZERO, n)
    return _close('first', (n,), (v,), (pred,), None, 'I')

def mk_fold(n, t, triples, k):
    """triples: list of (statevar, init, body).  value of component k after n iterations."""
    svs = [a for a, _, _ in triples]
    if n.op == 'num' and n.args[0] <= MAXEXP:
        cur = [i for _, i, _ in triples]
        for j in range(int(max(0, n.args[0]))):
            m = dict(zip(svs, cur)); m[t] = I(j)
            cur = [subst(b, m) for _, _, b in triples]
        return cur[k]
    # drop components that k does not depend on
    need = {k}
    ch = True
    while ch:
        ch = False
        for i in list(need):
            for j, sv in enumerate(svs):
                if sv in triples[i][2].vs and j not in need:
                    need.add(j); ch = True
    order = sorted(need)
    if len(order) > 1:
        r = _follows(n, t, triples, k, order)
        if r is not None: return r
    if k != 0 or len(order) > 1:
        # canonical component order: the requested one first, then by body with the state masked
        mask = {sv: var('$s' + sv.sort, sv.sort) for sv in svs}
        mask[t] = var('$t', 'I')
        rest = [i for i in order if i != k]
        if len(rest) > 1: rest.sort(key=lambda i: (show(subst(triples[i][2], mask)), show(triples[i][1])))
        order = [k] + rest
    if order != list(range(len(triples))):
        return mk_fold(n, t, [triples[i] for i in order], order.index(k))
    closed = (n,) + tuple(i for _, i, _ in triples)
    return _close('fold', closed, [t] + svs, tuple(b for _, _, b in triples), k, triples[k][1].sort)

def _follows(n, t, triples, k, order):
    """a best value kept beside its position, s_a == D(s_b): the position alone"""
    for b in order:
        sb, ib, bb = triples[b]
        if bb.op != 'ite' or sb.sort != 'I' or t is not bb.args[1] and t is not bb.args[2]: continue
        new = 1 if bb.args[1] is t else 2
        if bb.args[3 - new] is not sb: continue
        for a in order:
            sa, ia, ba = triples[a]
            if a == b or ba.op != 'ite': continue
            if ba.args[0] is bb.args[0]: D, old = ba.args[new], ba.args[3 - new]
            elif ba.args[0] is bnot(bb.args[0]): D, old = ba.args[3 - new], ba.args[new]
            else: continue
            if old is not sa or any(x in D.vs for x, _, _ in triples) or subst(D, {t: ib}) is not ia: continue
            m = {sa: subst(D, {t: sb})}
            rest = [(x, i, subst(y, m)) for j, (x, i, y) in enumerate(triples) if j != a]
            if k == a: return subst(D, {t: mk_fold(n, t, rest, [x for x, _, _ in rest].index(sb))})
            return mk_fold(n, t, rest, k - (a < k))
    return None

# convenience with python lambdas
def SUM(n, f, sort='R'):
    v = fresh('s', 'I')
    b = f(v)
    return mk_sum(lift(n, 'I'), v, lift(b, sort))
def FIRST(n, f):
    v = fresh('s', 'I')
    return mk_first(lift(n, 'I'), v, f(v))
def LAM(f):
    v = fresh('k', 'I')
    return mk_lam(v, f(v))
def FOLD(n, inits, f, k=0):
    """f(t, state tuple) -> tuple"""
    t = fresh('t', 'I')
    svs = [fresh('s', i.sort) for i in inits]
    bs = f(t, svs)
    if not isinstance(bs, (tuple, list)): bs = [bs]
    return mk_fold(lift(n, 'I'), t, list(zip(svs, inits, bs)), k)

# ---------------------------------------------------------------- printing
def _num(f):
    return str(f.numerator) if f.denominator == 1 else '%s/%s' % (f.numerator, f.denominator)
def show(t, d=0):
    if d > 14: return '...'
    op = t.op; a = t.args
    if op == 'num': return _num(a[0])
    if op in ('var', 'bvar', 'abase'): return a[0]
    if op == 'bv': return '#%d.%d' % a
    if op == 'poly':
        ps = []
        for c, m in a:
            f = [show(x, d+1) + ('^%d' % e if e > 1 else '') for x, e in m]
            if c != 1 or not f: f = [_num(c)] + f
            ps.append('*'.join(f))
        return '(' + ' + '.join(ps) + ')'
    if op == 'sel': return '%s[%s]' % (show(a[0], d+1), show(a[1], d+1))
    if op == 'app': return '%s(%s)' % (a[0], ', '.join(show(x, d+1) for x in a[1:]))
    if op in ('idiv', 'imod'): return '(%s %s %s)' % (show(a[0], d+1), 'div' if op == 'idiv' else 'mod', show(a[1], d+1))
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(show(x, d+1) for x in a)
    if op == 'le0': return '%s<=0' % show(a[0], d+1)
    if op == 'lt0': return '%s<0' % show(a[0], d+1)
    if op == 'eq0': return '%s==0' % show(a[0], d+1)
    if op == 'and': return '(' + ' & '.join(show(x, d+1) for x in a) + ')'
    if op == 'or': return '(' + ' | '.join(show(x, d+1) for x in a) + ')'
    if op == 'not': return '!' + show(a[0], d+1)
    if op in BINDERS:
        dep, closed, bodies, extra = a
        return '%s[#%d](%s; %s%s)' % (op, dep, ', '.join(show(x, d+1) for x in closed), '; '.join(show(x, d+1) for x in bodies), '' if extra is None else '; .%s' % extra)
    return '%s(%s)' % (op, ', '.join(show(x, d+1) if isinstance(x, T) else str(x) for x in a))

def subterms(ts):
    """all subterms not under binders' bodies (bodies excluded), iterative"""
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'poly':
            for c, m in t.args:
                for a, e in m: st.append(a)
        elif t.op in BINDERS:
            st.extend(t.args[1])
        else:
            for a in t.args:
                if isinstance(a, T): st.append(a)
    return seen

def atoms_of_poly(t):
    s = set()
    for m in _poly(t):
        for a, e in m: s.add(a)
    return s

def poly_items(t):
    return [(c, m) for m, c in _poly(t).items()]
