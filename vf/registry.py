"""Loads the contract files and binds them to the functions of the current source tree."""
import importlib, os
from . import cpp
from .spec import Contract
from .verify import resolve

CORE = ['core/mlpp_vector.cpp', 'core/mlpp_matrix.cpp', 'core/mlpp_tensor3.cpp']
ALL = ['vector']

_reg = []
def contract(name, sig=None, props=(), **kw):
    def deco(fn):
        c = Contract(name, fn, sig, tuple(props.split()) if isinstance(props, str) else props, kw.pop('byref', False), kw.pop('cases', None), kw)
        c.module = fn.__module__.split('.')[-1]
        _reg.append(c)
        return fn
    return deco

def modules():
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    return sorted(f[:-3] for f in os.listdir(here) if f.endswith('.py') and f not in ('__init__.py', 'common.py'))

def collect(names=None):
    """import contract modules (and the modules they use); returns module name -> (module, contracts)"""
    out = {}
    todo = list(names or modules())
    while todo:
        n = todo.pop(0)
        if n in out: continue
        m = importlib.import_module('contracts.' + n)
        out[n] = (m, [c for c in _reg if c.module == n])
        todo += [u for u in getattr(m, 'USES', ()) if u not in out]
    return out

def load_modules(mods):
    tus = []; cons = []
    for n, (m, cs) in mods.items():
        for f in getattr(m, 'FILES', ()):
            if f not in tus: tus.append(f)
        cons += cs
    prog = cpp.Program()
    prog.load(tus)
    bymn = {}
    for c in cons:
        mn, err = resolve(prog, c)
        if mn and ('#' not in c.name or mn not in bymn): bymn[mn] = c
    return prog, cons, bymn

def load(names=None, files=()):
    mods = collect(names)
    return load_modules(mods)

def for_property(pid):
    allm = collect()
    roots = [n for n, (m, cs) in allm.items() if any(pid in c.props for c in cs)]
    mods = {}
    todo = list(roots)
    while todo:
        n = todo.pop(0)
        if n in mods: continue
        mods[n] = allm[n]
        todo += list(getattr(allm[n][0], 'USES', ()))
    return mods
