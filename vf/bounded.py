"""Bounded stand-in: the same verification with literal small sizes (all element values stay symbolic)."""
import time, random, itertools
from . import verify as vv, term as tm
from .state import *
from .term import *

SIZES = (0, 1, 2, 3)

def plans(prog, con, mn, case, rng, cap, hints=()):
    s = vv.make_setup(prog, con, mn, case)
    dims = []; ints = []
    for oid, o in s.st.objs.items():
        if o.cls == 'MLPPVector': dims.append((oid, 1))
        elif o.cls == 'MLPPMatrix': dims.append((oid, 2))
        elif o.cls == 'MLPPTensor3': dims.append((oid, 3))
        elif o.cls == '$Vec':
            b = s.st.bufs[o.f['data'].bid]
            dims.append((oid, 1 + 2 * len(fam(b).shape) if b.sort == 'L' else 1))
        else:
            for k, v in o.f.items():
                if isinstance(v, T) and v.sort == 'I' and v.op == 'var': ints.append(v.args[0])
    suff = {}
    for oid, o in s.st.objs.items(): suff[oid] = {'MLPPVector': 'n', 'MLPPMatrix': 'wh', 'MLPPTensor3': 'whd'}.get(o.cls, 'n')
    for nm, t, v in s.inputs:
        if isinstance(v, Ptr): dims.append((nm, 1))
        if isinstance(v, T) and v.sort == 'I' and v.op == 'var': ints.append(nm)
        if isinstance(v, Struct): ints += ['%s.%s' % (nm, k) for k in v.f]
    ints = [nm for nm in ints if nm not in s.enums]     # enumerations stay symbolic
    slots = [(nm, i) for nm, k in dims for i in range(k)]
    nd = len(slots)
    def mk(vals, iv):
        d = {}
        for (nm, i), x in zip(slots, vals): d.setdefault(nm, []).append(x)
        for nm, how in (con.opts.get('lists') or {}).items():
            if nm not in d: continue
            if how != 'uniform': d[nm] = d[nm][:1] + d[how][1:]
            else: h = len(d[nm]) // 2; d[nm] = d[nm][:1] + d[nm][1:1 + h] * 2
        return {k: tuple(v) for k, v in d.items()}, dict(zip(ints, iv))
    cand = []
    for h in hints:      # where the proof was refuted
        x = [h.get('%s.%s' % (nm, suff.get(nm, 'n')[i]), rng.choice((1, 2, 3))) if i < len(suff.get(nm, 'n')) else rng.choice((1, 2, 3)) for nm, i in slots]
        vol = {}
        for (nm, i), v in zip(slots, x): vol[nm] = vol.get(nm, 1) * max(v, 1)
        if all(0 <= v <= 9 for v in x) and all(v <= 60 for v in vol.values()): cand.append((x, [h.get(nm, 1) for nm in ints]))
    def ichoice(): return [rng.choice((0, 1, 2, 3, -1, 1, 2)) for _ in ints]
    for x in (1, 2, 3, 0): cand.append(([x] * nd, [min(x, 2)] * len(ints)))
    total = len(SIZES) ** (nd + len(ints))
    if total <= cap:
        cand += [(list(c[:nd]), list(c[nd:])) for c in itertools.product(SIZES, repeat=nd + len(ints))]
    else:
        for _ in range(cap):
            a, b = rng.choice((1, 2, 3)), rng.choice((1, 2, 3))
            cand.append(([rng.choice((a, b, a, b, rng.choice(SIZES))) for _ in range(nd)], ichoice()))
    seen = set()
    for c in cand:
        k = repr(c)
        if k in seen: continue
        seen.add(k)
        yield mk(*c)

def check(V, con, mn, seed=1, budget=100.0, cap=40, hints=()):
    keep = tm.MAXEXP; tm.MAXEXP = 64
    try: return check_(V, con, mn, seed, budget, cap, hints)
    finally: tm.MAXEXP = keep
def check_(V, con, mn, seed, budget, cap, hints):
    """(status, description, obligations): status 'ok', 'refuted' or 'unknown'"""
    rng = random.Random(seed)
    t0 = time.time(); n = 0; nob = 0; reached = 0; unk = None
    cases = vv.enum_cases(V.prog, con, mn)
    for case in cases:
        for dims, ints in plans(V.prog, con, mn, case, rng, cap if len(cases) < 4 else max(8, cap // 3), hints):
            left = budget - (time.time() - t0)
            if left < 1: return ('ok' if unk is None and reached else 'unknown'), 'stopped after %d shapes' % n, nob
            res = vv.FnRes(con)
            try: cr = V.verify_case(con, mn, case, min(left, 20.0), res, dims, ints)
            except Unsupported as e: return 'unknown', 'unsupported: %s' % e, nob
            except RecursionError: return 'unknown', 'recursion limit', nob
            n += 1
            if cr.skipped: continue
            if cr.error:
                if 'precondition' in cr.error: continue
                if 'time budget' in cr.error or 'too many paths' in cr.error: continue
                return 'unknown', '%s at %s %s' % (cr.error, dims, ints), nob
            reached += 1; nob += len(cr.obls)
            for o in cr.obls:
                if o.status != 'proved':
                    d = '%s [%s] at %s %s %s' % (o.what, o.status, cr.name, dims, ints)
                    if o.status == 'refuted': return 'refuted', d, nob
                    unk = unk or d
                    break
            if unk: return 'unknown', unk, nob
    if not reached: return 'unknown', 'no shape satisfies the precondition', nob
    return 'ok', '%d shapes' % reached, nob
