"""Looking for a numeric point at which the facts hold and a goal fails: cuts hopeless proof attempts short.

Only ever used to stop trying (the answer 'not proved'); no obligation is discharged here."""
import random, math, time, itertools, zlib
import z3
from .term import *
from . import term as tm
from .numeval import Ev, Undefined, USER

def _h(*a): return zlib.crc32(repr(a).encode())
class Point(Ev):
    """every free symbol gets a value: integers from the model, reals and storage from a hash"""
    def __init__(self, env, seed):
        Ev.__init__(self, env); self.seed = seed; self.memo = {}
    def real(self, *key): return 0.25 + (_h(self.seed, *key) % 1000003) / 600000.0
    def _ev(self, t, loc, memo):
        if t.op in ('var', 'bvar') and t not in loc and t.args[0] not in self.env:
            v = self.env[t.args[0]] = self.real(t.args[0]) if t.sort == 'R' else False if t.sort == 'B' else 1 + _h(self.seed, t.args[0]) % 4
            return v
        return Ev._ev(self, t, loc, memo)
    def user(self, name, args):
        if name in USER and not name.startswith('$draw'): return Ev.user(self, name, args)
        if any(callable(x) for x in args): raise Undefined(name)
        if name in self.ints: return 1 + _h(self.seed, name, [round(x, 7) if isinstance(x, float) else x for x in args]) % 4
        return self.real(name, [round(x, 7) if isinstance(x, float) else x for x in args])
    def ev_arr(self, t, loc, memo):
        if t.op in ('abase', 'var') and t.sort in ('AI', 'AR'):
            nm = t.args[0]
            if t.sort == 'AR': return lambda i: self.real(nm, i)
            return lambda i: _h(self.seed, nm, i) % 4
        return Ev.ev_arr(self, t, loc, memo)
    def val(self, t):
        """the value, or None when it is not reliable"""
        self.close = self.extreme = False; self.steps = 0
        for u in tm.subterms([t]):
            if u.op == 'app' and u.sort == 'I': self.ints.add(u.args[0])
            if u.op == 'app' and u.args[0].startswith('$draw'): return None
        try: v = self.ev(t, {}, self.memo)
        except (Undefined, RecursionError, OverflowError, ZeroDivisionError, ValueError, TypeError, KeyError): self.memo = {}; return None
        if self.close or self.extreme: self.memo = {}; return None
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)): return None
        return v
    ints = set()

LIMIT = 60000
LAST = (None, None)     # the facts and the point of the last refutation
_PURE = {}
def pure(f):
    r = _PURE.get(f)
    if r is None:
        r = _PURE[f] = all(u.op in ('poly', 'num', 'le0', 'lt0', 'eq0', 'not', 'and', 'or', 'true', 'false') or (u.op in ('var', 'bvar')) for u in tm.subterms([f])) \
            and all(u.sort in ('I', 'B') for u in tm.subterms([f]))
    return r
def to_z3(f, vs):
    def go(t):
        if t.op == 'num': return z3.IntVal(int(t.args[0]))
        if t.op in ('var', 'bvar'):
            v = vs.get(t)
            if v is None: v = vs[t] = (z3.Int if t.sort == 'I' else z3.Bool)('v%d' % t.id)
            return v
        if t.op == 'poly':
            s = z3.IntVal(0)
            for c, m in t.args:
                p = None
                for x, e in m:
                    if e < 0: raise Undefined('power')
                    for _ in range(int(e)): p = go(x) if p is None else p * go(x)
                if c.denominator != 1: raise Undefined('fraction')
                s = s + (int(c) if p is None else p if c == 1 else int(c) * p)
            return s
        if t.op == 'le0': return go(t.args[0]) <= 0
        if t.op == 'lt0': return go(t.args[0]) < 0
        if t.op == 'eq0': return go(t.args[0]) == 0
        if t.op == 'not': return z3.Not(go(t.args[0]))
        if t.op == 'and': return z3.And([go(x) for x in t.args])
        if t.op == 'or': return z3.Or([go(x) for x in t.args])
        return z3.BoolVal(t.op == 'true')
    return go(f)
_POINTS = {}
def point(facts):
    """a point at which all facts hold, or None"""
    key = frozenset(facts)
    if key in _POINTS: return _POINTS[key]
    if len(_POINTS) > 4000: _POINTS.clear()
    p = None
    try: p = _point(facts)
    except (z3.Z3Exception, Undefined): pass
    _POINTS[key] = p
    return p
def _point(facts):
    vs = {}; es = []
    for f in facts:
        if pure(f): es.append(to_z3(f, vs))
    for u in tm.subterms([f for f in facts if not pure(f)]):
        if u.op == 'var' and u.sort == 'I' and u not in vs: vs[u] = z3.Int('v%d' % u.id)
    iv = [v for t, v in vs.items() if t.sort == 'I']
    for seed, (lo, hi, distinct) in enumerate([(1, 6, True), (1, 4, False), (0, 6, False), (-3, 14, False), (-3, 60, False)]):
        if distinct and not 2 <= len(iv) <= 5: continue
        s = z3.Solver(); s.set('timeout', 150); s.set('random_seed', seed)
        s.add(es); s.add([z3.And(v >= lo, v <= hi) for v in iv])
        if distinct: s.add(z3.Distinct(iv))
        if s.check() != z3.sat: continue
        m = s.model(); env = {}
        for t, v in vs.items():
            x = m.eval(v, model_completion=True)
            env[t.args[0]] = z3.is_true(x) if t.sort == 'B' else x.as_long()
        p = Point(env, seed)
        if all(pure(f) or p.val(f) is True for f in facts): return p
    return None
def differs(facts, a, b):
    """the two terms certainly differ somewhere the facts hold"""
    p = point(facts)
    if p is None: return False
    x, y = p.val(a), p.val(b)
    if x is None or y is None: return False
    if isinstance(x, float) or isinstance(y, float): return abs(x - y) > 1e-5 * max(1.0, abs(x), abs(y))
    return x != y
def fails(facts, goal):
    """the goal is certainly false somewhere the facts hold"""
    p = point(facts)
    return p is not None and fails_at(p, facts, goal)
def _deep(ts):
    """all subterms, the bodies of binders included"""
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        def put(x):
            if isinstance(x, T): st.append(x)
            elif isinstance(x, (tuple, list)):
                for y in x: put(y)
        if t.op == 'poly':
            for c, m in t.args:
                for a, e in m: st.append(a)
        else: put(t.args)
    return seen
def search(facts, goal, secs):
    """after a failed proof: points chosen for the conditions the goal mentions"""
    end = time.time() + secs; atoms = []
    for u in _deep(list(facts) + [goal]):
        if u.op in ('le0', 'lt0', 'eq0', 'and') and u not in facts and pure(u) and not any(x.op == 'bvar' for x in tm.subterms([u])): atoms.append(u)
    atoms.sort(key=lambda u: (u.op != 'and', u.op != 'eq0', u.id))
    for a in [TRUE] + [x for a in atoms[:24] for x in (a, bnot(a))]:
        if time.time() > end: return False
        if a in facts: continue
        try: p = _point(list(facts) + [a])
        except (z3.Z3Exception, Undefined): continue
        if p is None: continue
        if fails_at(p, facts, goal): return True
        ks = [k for k in p.env if k.endswith('!') and isinstance(p.env[k], int)]
        if not ks or len(ks) > 3: continue
        for v in itertools.product(range((40, 9, 5)[len(ks) - 1]), repeat=len(ks)):
            if time.time() > end: return False
            env = {k: x for k, x in p.env.items() if isinstance(x, int)}; env.update(zip(ks, v))
            q = Point(env, p.seed)
            if all(q.val(f) is True for f in facts) and fails_at(q, facts, goal): return True
    return False
def fails_at(p, facts, goal):
    global LAST
    LAST = (facts, p.env)
    for g in (tm.conjuncts(goal)):
        if g.op == 'eq0' and g.args[0].sort == 'R':
            x = g.args[0]; v = p.val(x)
            if v is None: continue
            scale = 1.0
            if x.op == 'poly':
                for c, m in x.args:
                    w = float(c)
                    for y, e in m:
                        z = p.val(y)
                        if z is None: w = None; break
                        w *= z ** e if z or e >= 0 else 1.0
                    if w is None: break
                    scale = max(scale, abs(w))
                if w is None: continue
            if abs(v) > 1e-5 * scale: return True
        elif p.val(g) is False: return True
    return False
