"""Numeric evaluation of terms: the contracts as an oracle on concrete inputs."""
import math, random
from .term import *
from . import term as tm

class Undefined(Exception): pass

def _sq(f):
    def g(*a):
        try: return f(*a)
        except ValueError: return math.nan
        except OverflowError: return math.inf
        except ZeroDivisionError: return math.nan
    return g
FN = {n: _sq(getattr(math, n)) for n in ('exp', 'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'erf', 'log1p', 'log2')}
def _log(x): return -math.inf if x == 0 else math.log(x)
FN['log'] = _sq(_log)
FN['log10'] = _sq(lambda x: -math.inf if x == 0 else math.log10(x))
FN['floor'] = _sq(lambda x: float(math.floor(x))); FN['ceil'] = _sq(lambda x: float(math.ceil(x)))
FN['round'] = _sq(lambda x: math.copysign(math.floor(abs(x) + 0.5), x))
FN['cbrt'] = lambda x: math.copysign(abs(x) ** (1 / 3), x)
def _pow(x, p):
    r = math.pow(x, p)
    return r
FN['pow'] = _sq(_pow)
FN['atan2'] = _sq(math.atan2)
FN['inv'] = lambda x: (math.inf if x == 0 else 1.0 / x)
def _order(a):
    xs = sorted(a[2](i) for i in range(a[0]))
    if not 0 <= a[1] < len(xs): raise Undefined('rank')
    return xs[a[1]]
def _det(a):
    """leading d x d window given row by row"""
    d = a[0]
    if not 1 <= d <= 6: raise Undefined('order')
    m = [[a[1](i * d + j) for j in range(d)] for i in range(d)]
    def go(m):
        if len(m) == 1: return m[0][0]
        return sum((-1) ** j * m[0][j] * go([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))
    return go(m)
def _draw_int(a):
    if a[1] == a[2]: return a[1]
    raise Undefined('random number')
def _ceil(x):
    if math.isnan(x) or math.isinf(x): raise Undefined('conversion')
    return math.ceil(x)
USER = {'$ceil': lambda a: _ceil(a[0]), '$draw_uniform_int': _draw_int, '$det': _det, '$order_stat': _order}

_free = {}
def free(t):
    """bound-variable leaves anywhere below t"""
    r = _free.get(t)
    if r is not None: return r
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        if u.op == 'poly': st += [a for c, m in u.args for a, e in m]
        elif u.op in tm.BINDERS: st += list(u.args[1]) + list(u.args[2])
        else: st += [a for a in u.args if isinstance(a, T)]
    r = _free[t] = tuple(sorted((u for u in seen if u.op in ('bv', 'bvar', 'var')), key=repr))
    return r

class Ev:
    def __init__(self, env):
        self.env = env; self.steps = 0
        self.close = False        # a comparison of reals was decided by a hair
        self.extreme = False      # an intermediate value a float cannot carry faithfully
        self.cache = {}           # values of sums, folds and searches, by the values of the bound variables in them
        self.noise = None         # random relative perturbation of every real operation: an estimate of rounding errors
    def __call__(self, t, loc=None):
        return self.ev(t, loc or {}, {})
    def ev(self, t, loc, memo):
        if t.op == 'num':
            f = t.args[0]
            return int(f) if t.sort == 'I' and f.denominator == 1 else float(f)
        r = memo.get(t)
        if r is None:
            key = None
            if t.op in ('sum', 'first', 'fold'):
                key = (t, id(self.noise) if self.noise is not None else 0) + tuple((b, loc[b]) for b in free(t) if b in loc)
                r = self.cache.get(key)
                if r is not None: memo[t] = r; return r
            self.steps += 1
            if self.steps > 3000000: raise Undefined('steps')
            r = self._ev(t, loc, memo)
            if key is not None: self.cache[key] = r
            memo[t] = r
        return r
    def near(self, v):
        if isinstance(v, float):
            if v != v or (abs(v) > 1e15 and not math.isinf(v)) or 0 < abs(v) < 1e-18: self.extreme = True     # infinities come from $INF; functions flag their own
            if self.noise is not None and v: v *= 1 + self.noise.uniform(-1, 1) * 2.0 ** -22
        return v
    def shaky(self, t, loc, v):
        """would rounding errors change the sign of a compared quantity"""
        if not any(u.op in ('app', 'sum', 'fold') for u in tm.subterms([t])): return False
        old = self.noise, self.close
        try:
            for s in (11, 12):
                self.noise = random.Random(s)
                w = self.ev(t, loc, {})
                if abs(w - v) * 8 > abs(v): return True
        finally: self.noise, self.close = old
        return False
    def _ev(self, t, loc, memo):
        op = t.op; a = t.args
        if op in ('var', 'bvar', 'abase'):
            if t in loc: return loc[t]
            if a[0] in self.env: return self.env[a[0]]
            raise Undefined(a[0])
        if op == 'bv':
            return loc[t]
        if op == 'poly':
            s = 0
            rat = False
            for c, m in a:
                v = c if t.sort == 'I' else float(c)
                for x, e in m:
                    y = self.ev(x, loc, memo)
                    v = v * y ** e if e >= 0 or y else (math.inf if y == 0 else v * y ** e)
                s += self.near(v)
            if t.sort == 'I': return math.floor(s)
            return self.near(s) if len(a) > 1 else s
        if op == 'sel':
            arr = self.ev_arr(a[0], loc, memo)
            i = self.ev(a[1], loc, memo)
            return arr(i)
        if op == 'ite':
            return self.ev(a[1] if self.ev(a[0], loc, memo) else a[2], loc, memo)
        if op == 'app':
            if a[0].startswith('$'):
                return self.user(a[0], [self.ev_arg(x, loc, memo) for x in a[1:]])
            f = FN.get(a[0])
            if f is None: raise Undefined(a[0])
            xs = [self.ev(x, loc, memo) for x in a[1:]]
            if any(isinstance(x, float) and math.isnan(x) for x in xs): self.extreme = True; return math.nan
            r = f(*xs)
            if isinstance(r, float) and (math.isinf(r) or r == 0 and a[0] == 'exp'): self.extreme = True
            return self.near(r)
        if op == 'i2r': return float(self.ev(a[0], loc, memo))
        if op == 'r2i':
            old = self.noise; self.noise = None
            try: x = self.ev(a[0], loc, memo if old is None else {})
            finally: self.noise = old
            if math.isnan(x) or math.isinf(x): raise Undefined('conversion')
            if abs(x - round(x)) < 1e-4 and x != round(x): self.close = True
            return int(x)
        if op in ('idiv', 'imod'):
            x, y = self.ev(a[0], loc, memo), self.ev(a[1], loc, memo)
            if y == 0: raise Undefined('division by zero')
            return x // y if op == 'idiv' else x % y
        if op == 'true': return True
        if op == 'false': return False
        if op == 'not': return not self.ev(a[0], loc, memo)
        if op == 'and': return all(self.ev(x, loc, memo) for x in a)
        if op == 'or': return any(self.ev(x, loc, memo) for x in a)
        if op in ('le0', 'lt0', 'eq0'):
            old = self.noise; self.noise = None
            try: v = self.ev(a[0], loc, memo if old is None else {})
            finally: self.noise = old
            if isinstance(v, float):
                if math.isnan(v): return False
                if v != 0 and self.shaky(a[0], loc, v): self.close = True
                if v != 0 and abs(v) < 1e-5: self.close = True
                if v == 0 and op != 'eq0' and self.inexact(a[0]): self.close = True
            return v <= 0 if op == 'le0' else v < 0 if op == 'lt0' else v == 0
        if op == 'sum':
            n = self.ev(a[1][0], loc, memo)
            bv = tm.bvars_of(t)[0]
            s = 0.0 if t.sort == 'R' else 0
            for i in range(max(0, n)):
                l2 = dict(loc); l2[bv] = i
                s += self.ev(a[2][0], l2, {})
                if t.sort == 'R': s = self.near(s)
            return s
        if op == 'first':
            n = self.ev(a[1][0], loc, memo)
            bv = tm.bvars_of(t)[0]
            for i in range(max(0, n)):
                l2 = dict(loc); l2[bv] = i
                if self.ev(a[2][0], l2, {}): return i
            return n
        if op == 'fold':
            n = self.ev(a[1][0], loc, memo)
            cur = [self.ev(x, loc, memo) for x in a[1][1:]]
            bvs = tm.bvars_of(t)
            for i in range(max(0, n)):
                l2 = dict(loc); l2[bvs[0]] = i
                for b, c in zip(bvs[1:], cur): l2[b] = c
                cur = [self.ev(b, l2, {}) for b in a[2]]
            return cur[a[3]]
        raise Undefined(op)
    def inexact(self, t):
        return any(u.op == 'app' for u in tm.subterms([t]))
    def ev_arg(self, x, loc, memo):
        if x.sort in ('AI', 'AR'): return self.ev_arr(x, loc, memo)
        return self.ev(x, loc, memo)
    def user(self, name, args):
        f = USER.get(name)
        if f is None: raise Undefined(name)
        return f(args, self) if getattr(f, 'with_ev', False) else f(args)
    def ev_arr(self, t, loc, memo):
        if t.op == 'abase':
            l = self.env.get(t.args[0])
            if l is None: raise Undefined(t.args[0])
            def get(i):
                if 0 <= i < len(l): return l[i]
                raise Undefined('index')
            return get
        if t.op == 'lam':
            bv = tm.bvars_of(t)[0]
            def get(i):
                l2 = dict(loc); l2[bv] = i
                return self.ev(t.args[2][0], l2, {})
            return get
        if t.op == 'ite':
            return self.ev_arr(t.args[1] if self.ev(t.args[0], loc, memo) else t.args[2], loc, memo)
        raise Undefined(t.op)

def value(env, t):
    """(value, tolerance) of a contract's term on a concrete input, or None when floats cannot decide it"""
    ws = []
    for seed in (None, 1, 2, 3):
        ev = Ev(env)
        if seed: ev.noise = random.Random(seed)
        try: w = ev(t)
        except (Undefined, OverflowError, ZeroDivisionError): return None
        if ev.close or ev.extreme: return None
        if isinstance(w, bool) or isinstance(w, int): return w, 0
        if math.isnan(w): return None
        if math.isinf(w): return w, 0
        ws.append(w)
    w = ws[0]
    return w, 32 * max(abs(x - w) for x in ws) + 1e-4 * abs(w) + 1e-5
