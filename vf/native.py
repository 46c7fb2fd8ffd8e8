"""Replays a failed obligation against the real code: builds the current sources, calls the function on generated inputs and
compares with the contract."""
import os, subprocess, tempfile, shutil, random, math, json, time, hashlib
from concurrent.futures import ThreadPoolExecutor
from .term import *
from . import term as tm
from . import cpp
from .cpp import qtype, strip_type
from .state import *
from .exec import sort_of, STRUCTS, CONTAINERS, Executor
from . import verify as vv
from .numeval import Ev, Undefined, USER, value

CXXFLAGS = ['-std=gnu++14', '-O1', '-g1', '-w', '-fno-exceptions', '-fno-rtti', '-DNO_SAFE_CAST', '-DUSING_SFW', '-DDEBUG_ENABLED', '-DNDEBUG', '-DX11_ENABLED', '-DUNIX_ENABLED',
            '-D_FILE_OFFSET_BITS=64', '-Iplatform/x11', '-Iplatform', '-I.', '-fsanitize=address', '-fno-omit-frame-pointer']

class NativeError(Exception): pass

class Lib:
    """the current sources compiled with AddressSanitizer into a scratch directory"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vfnat.')
        self.lib = None
    def build(self):
        if self.lib: return self.lib
        repo = cpp.REPO
        srcs = ['platform/sfw.cpp', 'platform/image.cpp'] + all_sources()
        def one(s):
            o = os.path.join(self.dir, s.replace('/', '_') + '.o')
            p = subprocess.run(['g++'] + CXXFLAGS + ['-c', s, '-o', o], cwd=repo, capture_output=True, text=True)
            return (o, None) if p.returncode == 0 else (None, '%s: %s' % (s, p.stderr[-1500:]))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        objs = [o for o, e in res if o]
        self.errors = [e for o, e in res if e]
        lib = os.path.join(self.dir, 'libnat.a')
        subprocess.run(['ar', 'rcs', lib] + objs, check=True, capture_output=True)
        self.lib = lib
        return lib
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def all_sources():
    out = []
    for root in ('core', 'modules'):
        for d, _, fs in os.walk(os.path.join(cpp.REPO, root)):
            for f in sorted(fs):
                if f.endswith('.cpp'): out.append(os.path.relpath(os.path.join(d, f), cpp.REPO))
    return sorted(out)

PRE = r'''
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <iostream>
#include <sstream>
#include <random>
#include <map>
#include <functional>
#include <algorithm>
%(includes)s
static char tok[64];
static char *T() { if (scanf("%%63s", tok) != 1) { exit(0); } return tok; }
static int TI() { return atoi(T()); }
static float TF() { return strtof(T(), NULL); }
static void sep() { printf(" "); }
static void D(float v) { printf("R %%.9g ", (double)v); }
static void D(double v) { printf("R %%.9g ", v); }
static void D(int v) { printf("I %%d ", v); }
static void D(bool v) { printf("I %%d ", (int)v); }
static void D(unsigned int v) { printf("I %%u ", v); }
static void D(uint8_t v) { printf("I %%u ", (unsigned)v); }
static void D(long v) { printf("I %%ld ", v); }
static void D(const Size2i &s) { printf("S 2 %%d %%d ", s.x, s.y); }
static void D(const Size3i &s) { printf("S 3 %%d %%d %%d ", s.x, s.y, s.z); }
static void DF(const float *p, long n) { for (long i = 0; i < n; ++i) printf("%%.9g ", (double)p[i]); }
static void D(const MLPPVector *v) { printf("V %%d ", v->_size); if (v->_size > 0 && !v->_data) printf("NOSTORAGE "); else DF(v->_data, v->_size); }
static void D(const MLPPMatrix *v) { printf("M %%d %%d ", v->_size.x, v->_size.y); long n = (long)v->_size.x * v->_size.y; if (n > 0 && !v->_data) printf("NOSTORAGE "); else DF(v->_data, n); }
static void D(const MLPPTensor3 *v) { printf("T %%d %%d %%d ", v->_size.x, v->_size.y, v->_size.z); long n = (long)v->_size.x * v->_size.y * v->_size.z; if (n > 0 && !v->_data) printf("NOSTORAGE "); else DF(v->_data, n); }
template <class X> static void D(const Ref<X> &r) { if (!r.is_valid()) printf("N "); else D(r.ptr()); }
static void D(const PoolRealArray &a) { printf("C %%d ", a.size()); for (int i = 0; i < a.size(); ++i) printf("%%.9g ", (double)a[i]); }
static void D(const PoolIntArray &a) { printf("C %%d ", a.size()); for (int i = 0; i < a.size(); ++i) printf("%%d ", a[i]); }
template <class X> static void D(const std::vector<X> &a) { printf("C %%d ", (int)a.size()); for (size_t i = 0; i < a.size(); ++i) printf("%%.9g ", (double)a[i]); }
static void D(const Vector<real_t> &a) { printf("C %%d ", a.size()); for (int i = 0; i < a.size(); ++i) printf("%%.9g ", (double)a[i]); }
static void D(const Vector<int> &a) { printf("C %%d ", a.size()); for (int i = 0; i < a.size(); ++i) printf("%%.9g ", (double)a[i]); }
static void D(const Vector<uint8_t> &a) { printf("C %%d ", a.size()); for (int i = 0; i < a.size(); ++i) printf("%%.9g ", (double)a[i]); }
template <class X> static void D(const Vector<Ref<X>> &a) { printf("L %%d ", a.size()); for (int i = 0; i < a.size(); ++i) D(a[i]); }
static void D(const Vector<Vector<real_t>> &a) { printf("L %%d ", a.size()); for (int i = 0; i < a.size(); ++i) D(a[i]); }
static void D(const PoolVector2iArray &a) { printf("L %%d ", a.size()); for (int i = 0; i < a.size(); ++i) printf("S 2 %%d %%d ", a[i].x, a[i].y); }
template <class X> static void DX(const X &x) { printf("X "); }
static real_t *rdata(long n) { real_t *d = n > 0 ? (real_t *)memalloc(n * sizeof(real_t)) : NULL; for (long i = 0; i < n; ++i) d[i] = TF(); return d; }
static void RO(MLPPVector *v) { v->_size = TI(); v->_data = rdata(v->_size); }
static void RO(MLPPMatrix *v) { v->_size.x = TI(); v->_size.y = TI(); v->_data = rdata((long)v->_size.x * v->_size.y); }
static void RO(MLPPTensor3 *v) { v->_size.x = TI(); v->_size.y = TI(); v->_size.z = TI(); v->_data = rdata((long)v->_size.x * v->_size.y * v->_size.z); }
template <class X> static void RR(Ref<X> &r) { char *t = T(); if (t[0] == 'N') { r.unref(); return; } r.instance(); RO(r.ptr()); }
static void RC(PoolRealArray &a) { int n = TI(); a.resize(n); PoolRealArray::Write w = a.write(); for (int i = 0; i < n; ++i) w[i] = TF(); }
static void RC(PoolIntArray &a) { int n = TI(); a.resize(n); PoolIntArray::Write w = a.write(); for (int i = 0; i < n; ++i) w[i] = (int)TF(); }
template <class X> static void RC(std::vector<X> &a) { int n = TI(); a.resize(n); for (int i = 0; i < n; ++i) a[i] = TF(); }
template <class X> static void RC(Vector<X> &a) { int n = TI(); a.resize(n); for (int i = 0; i < n; ++i) a.write[i] = TF(); }
template <class X> static void RC(Vector<Ref<X>> &a) { int n = TI(); a.resize(n); for (int i = 0; i < n; ++i) { Ref<X> r; r.instance(); RO(r.ptr()); a.write[i] = r; } }
template <class X> static void RC(std::vector<Ref<X>> &a) { int n = TI(); for (int i = 0; i < n; ++i) { Ref<X> r; r.instance(); RO(r.ptr()); a.push_back(r); } }
static real_t user_real(real_t x) { return 0.5 * x * x * x - x * x + 2 * x + 1; }
static real_t user_vec(const Ref<MLPPVector> &v) { real_t r = 1; for (int i = 0; i < v->size(); ++i) { real_t x = v->element_get(i); r += (i + 1) * x * x * 0.5 + x; if (i) r += 0.25 * x * v->element_get(i - 1); } return r; }
'''
def _user_real(a):
    x = a[0]; return 0.5 * x * x * x - x * x + 2 * x + 1
def _user_vec(a):
    n, f = a
    r = 1.0
    for i in range(n):
        x = f(i); r += (i + 1) * x * x * 0.5 + x
        if i: r += 0.25 * x * f(i - 1)
    return r

def is_ref_class(prog, cls):
    seen = set()
    def up(c):
        if c in seen: return False
        seen.add(c)
        if c in ('Reference', 'Resource', 'RefCounted'): return True
        i = prog.classes.get(c)
        return bool(i) and any(up(b) for b in i['bases'])
    return up(cls)

class Driver:
    def __init__(self, prog, con, mn):
        self.prog = prog; self.con = con; self.mn = mn
        self.tu, self.fn = prog.funcs[mn]
        self.exe = None
    # plan: list of (name, kind, ctype, ...) in the order in which values are read and dumped
    def source(self, setup):
        prog, fn = self.prog, self.fn
        cls = fn.get('_cls')
        static = fn.get('storageClass') == 'static' or fn['kind'] == 'FunctionDecl'
        L = []; dump = []; args = []
        inc = self.header()
        ctor = fn['kind'] == 'CXXConstructorDecl'
        has_this = bool(cls and not static)
        if has_this:
            if is_ref_class(prog, cls): L.append('Ref<%s> self; self.instance(); %s *thisp = self.ptr();' % (cls, cls))
            else: L.append('%s *thisp = new %s();' % (cls, cls))
            self.read_obj(L, cls, 'thisp', setup, 'this')
            dump.append(('this', self.dump_obj(cls, 'thisp', setup, 'this')))
        for i, p in enumerate(fn['_params']):
            t = qtype(p); nm = p.get('name') or 'arg%d' % i
            b = strip_type(t).rstrip()
            c = vv.ref_class(t)
            if c:
                L.append('Ref<%s> %s; { char *t = T(); if (t[0] == \'A\') { int j = TI(); %s } else if (t[0] == \'O\') { %s.instance(); %s } }' % (
                    c, nm, self.alias_code(i, c, has_this and cls), nm, self.read_code(c, nm + '.ptr()', setup, nm)))
                if '&' in t and 'const' not in t.split('Ref')[0]: pass
                dump.append((nm, 'if (%s.is_valid()) { %s } else printf("N ");' % (nm, self.dump_obj(c, nm + '.ptr()', setup, nm))))
                args.append(nm)
            elif sort_of(t):
                so = sort_of(t)
                L.append('%s %s = %s;' % (b, nm, 'TF()' if so == 'R' else 'TI()'))
                args.append(nm)
                if t.rstrip().endswith('&') and not t.startswith('const'): dump.append((nm, 'D(%s);' % nm))
            elif b in STRUCTS:
                L.append('%s %s; %s' % (b, nm, ' '.join('%s.%s = TI();' % (nm, f) for f in STRUCTS[b])))
                args.append(nm)
            elif b.startswith(CONTAINERS):
                bt = b.replace('float', 'real_t') if False else b
                L.append('%s %s; RC(%s);' % (bt, nm, nm)); args.append(nm)
                dump.append((nm, 'D(%s);' % nm))
            elif '(*)' in b or 'std::function' in b:
                args.append('user_vec' if 'Ref' in b else 'user_real')
            elif b.endswith('*'):
                ct = b[:-1].replace('const', '').strip()
                L.append('int %s_n = TI(); %s *%s = (%s *)malloc((%s_n > 0 ? %s_n : 1) * sizeof(%s)); for (int i = 0; i < %s_n; ++i) %s[i] = TF();' % (nm, ct, nm, ct, nm, nm, ct, nm, nm))
                args.append(nm)
            elif b in vv.CLS3:
                L.append('%s %s_o; RO(&%s_o);' % (b, nm, nm)); args.append(nm + '_o')
                dump.append((nm, 'D(&%s_o);' % nm))
            elif b.startswith('String') or b.startswith('Variant'):
                args.append('%s()' % b)
            elif '::' in b:
                L.append('%s %s = (%s)TI();' % (b, nm, b)); args.append(nm)
            else: raise NativeError('parameter type ' + t)
        rt = fn['type']['qualType'].split('(')[0].strip()
        call = ('thisp->%s' % fn['name'] if has_this else ('%s::%s' % (cls, fn['name']) if cls else fn['name'])) + '(' + ', '.join(args) + ')'
        S = [PRE % {'includes': inc}, 'int main() {', ' SFWCore::setup();', ' setvbuf(stdout, NULL, _IOLBF, 1 << 16);', ' while (true) {', ' char *h = T(); if (h[0] != \'B\') break; int id = TI();']
        S += ['  ' + x for x in L]
        S.append('  printf("\\nBEGIN %d\\n", id); fflush(stdout);')
        if rt == 'void': S.append('  %s;' % call)
        else:
            S.append('  auto ret = %s;' % call)
        S.append('  printf("\\nDONE %d\\n", id);')
        for nm, code in dump: S.append('  printf("\\nOBJ %s "); %s' % (nm, code))
        if rt != 'void':
            S.append('  printf("\\nRET "); %s' % self.dump_ret(rt))
        S.append('  printf("\\nEND %d\\n", id); fflush(stdout);')
        S += [' }', ' return 0;', '}']
        self.dumps = [d[0] for d in dump]
        return '\n'.join(S)
    def dump_ret(self, rt):
        b = strip_type(rt)
        c = vv.ref_class(rt)
        if c and c not in vv.CLS3: return 'printf("X ");'
        if c or sort_of(rt) or b in STRUCTS or b.startswith(('PoolRealArray', 'PoolIntArray', 'PoolVector2iArray', 'std::vector<', 'Vector<')): return 'D(ret);'
        for k in (b, self.fn.get('_cls', '') + '::' + b, 'MLPPUtilities::' + b.split('::')[-1]):
            if k in self.prog.classes and not self.prog.classes[k]['bases']:
                fs = [(n, strip_type(t.get('desugaredQualType', t['qualType']))) for n, t, i in Executor(self.prog, None).class_fields(k)]
                return 'printf("{ "); %s printf("} ");' % ' '.join('printf("%s "); D(ret.%s);' % (n, n) for n, t in fs if vv.ref_class(t) or sort_of(t) or t.startswith(('Vector<', 'std::vector<')))
        return 'printf("X ");'
    def alias_code(self, i, c, cls):
        s = ''
        if cls == c: s += 'if (j == -1) %s = self; ' % (self.fn['_params'][i].get('name'))
        for j in range(i):
            if vv.ref_class(qtype(self.fn['_params'][j])) == c:
                s += 'if (j == %d) %s = %s; ' % (j, self.fn['_params'][i].get('name'), self.fn['_params'][j].get('name'))
        return s
    def read_code(self, c, ptr, setup, name):
        L = []
        self.read_obj(L, c, ptr, setup, name)
        return ' '.join(L)
    def fields(self, cls, setup, name):
        o = setup.st.objs.get(name)
        if o is None: return []
        types = {}
        ex = Executor(self.prog, None)
        for n, t, init in ex.class_fields(cls): types[n] = t.get('desugaredQualType', t['qualType'])
        return [(n, types[n], v) for n, v in o.f.items() if n in types]
    def read_obj(self, L, cls, ptr, setup, name):
        if cls in vv.CLS3: L.append('RO(%s);' % ptr); return
        for n, t, v in self.fields(cls, setup, name):
            c = vv.ref_class(t)
            if isinstance(v, (Opaque, FnPtr)) : continue
            if c:
                if v.oid is None: L.append('%s->%s.unref();' % (ptr, n)); continue
                if v.oid != '%s.%s' % (name, n):
                    L.append('%s->%s = %s->%s;' % (ptr, n, ptr, v.oid.split('.')[-1])); continue
                L.append('%s->%s.instance();' % (ptr, n))
                self.read_obj(L, c, '%s->%s.ptr()' % (ptr, n), setup, v.oid)
            elif strip_type(t) in vv.CLS3: L.append('RO(&%s->%s);' % (ptr, n))
            elif sort_of(t): L.append('%s->%s = %s;' % (ptr, n, 'TF()' if sort_of(t) == 'R' else 'TI()'))
            elif strip_type(t) in STRUCTS: L.append(' '.join('%s->%s.%s = TI();' % (ptr, n, f) for f in STRUCTS[strip_type(t)]))
            elif strip_type(t).startswith(CONTAINERS): L.append('RC(%s->%s);' % (ptr, n))
            elif isinstance(v, T): L.append('%s->%s = (%s)TI();' % (ptr, n, strip_type(t)))
            elif isinstance(v, Ptr): raise NativeError('pointer field')
    def dump_obj(self, cls, ptr, setup, name):
        if cls in vv.CLS3: return 'D(%s);' % ptr
        out = ['printf("{ ");']
        for n, t, v in self.fields(cls, setup, name):
            if isinstance(v, (Opaque, FnPtr)): continue
            c = vv.ref_class(t)
            if c:
                if c in vv.CLS3: out.append('printf("%s "); D(%s->%s);' % (n, ptr, n))
            elif strip_type(t) in vv.CLS3: out.append('printf("%s "); D(&%s->%s);' % (n, ptr, n))
            elif sort_of(t) or strip_type(t) in STRUCTS: out.append('printf("%s "); D(%s->%s);' % (n, ptr, n))
        out.append('printf("} ");')
        return ' '.join(out)
    def header(self):
        hs = []
        for f in sorted(self.prog.tus):
            h = f[:-4] + '.h'
            if os.path.exists(os.path.join(cpp.REPO, h)): hs.append(h)
        base = ['sfw.h', 'core/mlpp_vector.h', 'core/mlpp_matrix.h', 'core/mlpp_tensor3.h']
        own = self.tu.path[:-4] + '.h'
        for h in [own] + hs:
            if h not in base and os.path.exists(os.path.join(cpp.REPO, h)): base.append(h)
        return '\n'.join('#include "%s"' % h for h in base)
    def compile(self, lib, setup):
        libp = lib.build()
        src = self.source(setup)
        k = hashlib.sha1((self.mn).encode()).hexdigest()[:12]
        cppf = os.path.join(lib.dir, 'd%s.cpp' % k); exe = os.path.join(lib.dir, 'd%s' % k)
        open(cppf, 'w').write(src)
        p = subprocess.run(['g++'] + CXXFLAGS + ['-fno-access-control', cppf, '-o', exe, libp, '-lpthread', '-ldl', '-lm'], cwd=cpp.REPO, capture_output=True, text=True)
        if p.returncode: raise NativeError('driver: ' + p.stderr[-2500:])
        self.exe = exe; self.src = src
        return exe

# ------------------------------------------------------------------ inputs
def literals(prog, mn, inlined=()):
    out = set(); fl = set()
    def walk(n):
        if n.get('kind') == 'IntegerLiteral':
            v = int(n['value'])
            if abs(v) <= 5000: out.add(v)
        if n.get('kind') == 'FloatingLiteral':
            try: fl.add(float(n['value']))
            except ValueError: pass
        for c in n.get('inner', []): walk(c)
    for m in [mn] + list(inlined):
        if m in prog.funcs: walk(prog.funcs[m][1])
    return out, fl

class Gen:
    def __init__(self, rng, lits, flits, maxel=400):
        self.rng = rng; self.lits = sorted(lits); self.flits = sorted(flits); self.maxel = maxel
    hint = {}
    def new_test(self, k):
        r = self.rng
        base = [r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) for _ in range(2)]
        if r.random() < 0.35:
            c = [l for l in self.lits if 0 < l <= 130]
            if c:
                l = r.choice(c)
                base[0] = max(0, l + r.choice([-1, 0, 0, 1, 2]))
        if r.random() < 0.12: base[r.randrange(2)] = r.choice([6, 7, 8, 9, 12, 16, 17, 20, 33, 64, 65])
        self.pool = base
        self.mode = r.choice(['small', 'small', 'half', 'pos', 'pos', 'unit', 'wide', 'onehot', 'tiny'])
        self.same = r.random() < 0.5
    def dim(self):
        r = self.rng
        if self.same and r.random() < 0.9: return self.pool[0]
        return r.choice(self.pool) if r.random() < 0.92 else r.choice([0, 1, 2, 3, 5])
    def val(self):
        r = self.rng; m = self.mode
        if m == 'small': return float(r.randint(-3, 3))
        if m == 'half': return r.randint(-8, 8) / 2
        if m == 'pos': return r.randint(1, 9) / 2
        if m == 'unit': return r.choice([0.125, 0.25, 0.5, 0.75, 0.875])
        if m == 'onehot': return float(r.random() < 0.3)
        if m == 'tiny': return r.randint(-40, 40) / 16
        return r.choice([-1, 1]) * r.choice([0, 1, 2, 5, 10, 17, 60, 100, 1000, 0.01] + [f for f in self.flits if abs(f) < 1e6])
    def real(self):
        r = self.rng
        if r.random() < 0.3 and (self.flits or self.lits):
            return float(r.choice(self.flits + [float(l) for l in self.lits]))
        return r.choice([self.val(), 0.0, 1.0, 2.0, -1.0, 0.5, 3.0])
    def int_(self):
        r = self.rng
        p = self.pool
        c = [0, 1, 2, 3, -1, -2] + p + [x - 1 for x in p] + [x + 1 for x in p]
        if r.random() < 0.3 and self.lits: c = list(self.lits)
        return r.choice(c)

def fill_inputs(setup, gen):
    """choose a value for every variable of the pre-state; returns env"""
    st = setup.st; env = {}
    env['$INF'] = math.inf
    def tv(t):
        if t.op in ('var', 'bvar') and t.args[0] not in env and not t.args[0].startswith('$'):
            nm = t.args[0]
            if t.sort == 'I':
                if nm in gen.hint: env[nm] = gen.hint[nm]
                elif nm in setup.enums: env[nm] = gen.rng.choice(setup.enums[nm]) if gen.rng.random() < 0.95 else gen.int_()
                elif nm.endswith(('.n', '.w', '.h', '.d')) and not any(c in nm for c in '!#'): env[nm] = gen.dim()
                else: env[nm] = gen.int_()
            elif t.sort == 'R': env[nm] = gen.real()
            else: env[nm] = gen.rng.random() < 0.5
    def walk(v):
        if isinstance(v, T):
            for x in v.vs: tv(x)
        elif isinstance(v, Struct):
            for x in v.f.values(): walk(x)
    for o in st.objs.values():
        for v in o.f.values(): walk(v)
    for b in st.bufs.values():
        if b.sort != 'L': walk(b.len)
    for nm, t, v in setup.inputs: walk(v)
    ev = Ev(env)
    for bid, b in st.bufs.items():
        if b.sort == 'L': continue
        n = ev(b.len)
        if n > gen.maxel or n < 0: return None
        if b.arr.op == 'abase':
            if gen.mode == 'onehot' and False: pass
            env[b.arr.args[0]] = [gen.val() if b.sort == 'R' else gen.int_() for _ in range(n)]
    for f in st.facts:
        try:
            if not Ev(env)(f): return None
        except Undefined: return None
    return env

def fmt(x):
    if isinstance(x, bool): return '1' if x else '0'
    if isinstance(x, int): return str(x)
    return repr(float(x))

def encode(drv, setup, case, env):
    """token stream of one test"""
    st = setup.st; ev = Ev(env); out = []
    def obj(oid):
        o = st.objs[oid]
        if o.cls in vv.CLS3:
            s = o.f['_size']
            dims = [ev(s)] if isinstance(s, T) else [ev(s.f[k]) for k in 'xyz' if k in s.f]
            out.extend(str(d) for d in dims)
            b = st.bufs[o.f['_data'].bid]
            out.extend(fmt(x) for x in env[b.arr.args[0]])
            return
        if o.cls == '$Vec':
            b = st.bufs[o.f['data'].bid]
            out.append(str(ev(b.len)))
            if b.sort == 'L':
                for x in b.arr: obj(x.oid)
            else: out.extend(fmt(x) for x in env[b.arr.args[0]])
            return
        for n, t, v in drv.fields(o.cls, setup, oid):
            if isinstance(v, (Opaque, FnPtr)): continue
            if isinstance(v, O):
                if v.oid is None: continue
                if vv.ref_class(t) and v.oid != '%s.%s' % (oid, n): continue
                obj(v.oid)
            elif isinstance(v, Struct): out.extend(str(ev(v.f[k])) for k in 'xyz' if k in v.f)
            elif isinstance(v, T): out.append(fmt(ev(v)))
    fn = drv.fn
    has_this = setup.this is not None
    if has_this: obj(setup.this.oid)
    for i, p in enumerate(fn['_params']):
        v = setup.args[i]
        t = qtype(p)
        if vv.ref_class(t):
            c = case.get(i, 'obj')
            if v.oid is None: out.append('N')
            elif isinstance(c, tuple): out += ['A', str(c[1])]
            else: out.append('O'); obj(v.oid)
        elif isinstance(v, T): out.append(fmt(ev(v)))
        elif isinstance(v, Struct): out.extend(str(ev(v.f[k])) for k in 'xyz' if k in v.f)
        elif isinstance(v, O): obj(v.oid)
        elif isinstance(v, Ptr):
            b = st.bufs[v.bid]; out.append(str(ev(b.len))); out.extend(fmt(x) for x in env[b.arr.args[0]])
    return out

def parse_val(tk, pos):
    k = tk[pos]; pos += 1
    def nums(n):
        nonlocal pos
        if n > 0 and tk[pos] == 'NOSTORAGE': pos += 1; return 'NOSTORAGE'
        r = [float(x) for x in tk[pos:pos + n]]; pos += n; return r
    if k == 'R': return ('R', float(tk[pos])), pos + 1
    if k == 'I': return ('I', int(tk[pos])), pos + 1
    if k == 'S':
        n = int(tk[pos]); return ('S', [int(x) for x in tk[pos + 1:pos + 1 + n]]), pos + 1 + n
    if k in ('V', 'M', 'T'):
        nd = {'V': 1, 'M': 2, 'T': 3}[k]
        dims = [int(x) for x in tk[pos:pos + nd]]; pos += nd
        n = 1
        for d in dims: n *= d
        d = nums(n); return (k, dims, d), pos
    if k == 'C':
        n = int(tk[pos]); pos += 1
        d = nums(n); return ('C', [n], d), pos
    if k == 'L':
        n = int(tk[pos]); pos += 1; l = []
        for _ in range(n):
            v, pos = parse_val(tk, pos); l.append(v)
        return ('L', l), pos
    if k == 'N': return ('N',), pos
    if k == 'X': return ('X',), pos
    if k == '{':
        d = {}
        while tk[pos] != '}':
            nm = tk[pos]; v, pos = parse_val(tk, pos + 1); d[nm] = v
        return ('{', d), pos + 1
    raise NativeError('dump ' + k)

def run_tests(drv, tests, timeout=60):
    """tests: list of token lists -> list of result dicts (or crash info)"""
    res = [None] * len(tests)
    todo = list(range(len(tests)))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=91:detect_stack_use_after_return=0:print_summary=1')
    t0 = time.time(); crashes = 0
    while todo and time.time() - t0 < timeout and crashes < 6:
        chunk = todo[:200]
        inp = '\n'.join('B %d %s' % (i, ' '.join(tests[i])) for i in chunk) + '\nQ\n'
        d = tempfile.mkdtemp(prefix='vfrun.')
        try:
            try:
                p = subprocess.run([drv.exe], input=inp, capture_output=True, text=True, timeout=20, env=env, cwd=d, errors='replace')
                out, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
                err = 'time limit'; rc = -999
        finally:
            shutil.rmtree(d, ignore_errors=True)
        cur = None; r = None; done = set(); begun = None
        for line in out.split('\n'):
            if line.startswith('BEGIN '): begun = int(line.split()[1]); r = {'objs': {}, 'ret': None}
            elif line.startswith('OBJ ') and r is not None:
                tk = line.split()
                try: r['objs'][tk[1]] = parse_val(tk, 2)[0]
                except (IndexError, ValueError): r['objs'][tk[1]] = ('X',)
            elif line.startswith('RET ') and r is not None:
                tk = line.split()
                try: r['ret'] = parse_val(tk, 1)[0]
                except (IndexError, ValueError): r['ret'] = ('X',)
            elif line.startswith('END '):
                i = int(line.split()[1]); res[i] = r; done.add(i); r = None; begun = None
        if begun is not None and begun not in done:
            crashes += 1
            why = 'exit %s' % rc
            if rc == -999: why = 'does not terminate within 20 s'
            for l in err.split('\n'):
                if 'AddressSanitizer' in l or 'ERROR' in l: why = l.strip(); break
            res[begun] = {'crash': why}; done.add(begun)
        if not done: break
        todo = [i for i in todo if i not in done and i > (max(done) if done else -1)] + []
    return res

# ------------------------------------------------------------------ comparison with the contract
def close(a, b, tol):
    if math.isnan(a): return True        # 0 * (1/0) and the like: the real-valued contract says nothing here
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= tol

class Oracle:
    def __init__(self, specs, reqs, setup):
        self.specs = specs; self.reqs = reqs; self.setup = setup
        self.nb = len(setup.st.facts)
    def select(self, env):
        ev = Ev(env)
        for c in self.reqs:
            if not ev(c) : return None
        if ev.close: return None
        for s, r in self.specs:
            ev = Ev(env)
            if all(ev(f) for f in s.facts):
                if ev.close: return None
                return s, r
        return None
    def compare(self, env, res):
        """None: fine or undefined; otherwise a description of the difference"""
        sel_ = self.select(env)
        if sel_ is None: return None
        s, r = sel_
        scale_ = max([abs(x) for k, v in env.items() if isinstance(v, list) for x in v if isinstance(x, float)] + [1.0])
        if 'crash' in res: return 'the call fails: ' + res['crash']
        for nm, got in res['objs'].items():
            v = self.lookup(nm)
            if v is None: continue
            d = self.cmp(env, s, v, got, nm, scale_)
            if d: return 'after the call %s' % d
        if res['ret'] is not None and r[1] is not None:
            d = self.cmp(env, s, r[1], res['ret'], 'result', scale_)
            if d: return d
        return None
    def lookup(self, nm):
        if nm == 'this': return self.setup.this
        for n, t, v in self.setup.inputs:
            if n == nm: return v
        return None
    def cmp(self, env, s, want, got, what, scale_):
        if got[0] == 'X' or want is None: return None
        if isinstance(want, O):
            if want.oid is None: return None if got[0] == 'N' else '%s is not null' % what
            if got[0] == 'N': return '%s is null' % what
            o = s.objs[want.oid]
            if o.cls in vv.CLS3:
                if got[0] not in 'VMT': return None
                sz = o.f['_size']
                ev = Ev(env)
                try: dims = [ev(sz)] if isinstance(sz, T) else [ev(sz.f[k]) for k in 'xyz' if k in sz.f]
                except Undefined: return None
                if ev.close: return None
                if got[1] != dims: return '%s has size %s, expected %s' % (what, got[1], dims)
                if got[2] == 'NOSTORAGE': return '%s has size %s and no storage' % (what, got[1])
                p = o.f['_data']
                return self.cells(env, s.bufs[p.bid].arr if p.bid is not None else None, got[2], what, dims, scale_)
            if o.cls == '$Vec':
                b = s.bufs[o.f['data'].bid]
                if got[0] == 'L':
                    if b.sort != 'L': return None
                    f = fam(b)
                    if f is not None:
                        ev = Ev(env)
                        try:
                            n = ev(b.len); els = [([ev(x) for x in f.at(I(i))[0]], f.at(I(i))[1]) for i in range(n)]
                        except Undefined: return None
                        if ev.close: return None
                        if len(got[1]) != n: return '%s has %d elements, expected %d' % (what, len(got[1]), n)
                        for i, ((dims, arr), g) in enumerate(zip(els, got[1])):
                            if g[0] == 'N': return '%s[%d] is null' % (what, i)
                            if g[1] != dims: return '%s[%d] has size %s, expected %s' % (what, i, g[1], dims)
                            if g[2] == 'NOSTORAGE': return '%s[%d] has size %s and no storage' % (what, i, g[1])
                            d = self.cells(env, arr, g[2], '%s[%d]' % (what, i), dims, scale_)
                            if d: return d
                        return None
                    if len(got[1]) != len(b.arr): return '%s has %d elements, expected %d' % (what, len(got[1]), len(b.arr))
                    for i, (w, g) in enumerate(zip(b.arr, got[1])):
                        d = self.cmp(env, s, w, g, '%s[%d]' % (what, i), scale_)
                        if d: return d
                    return None
                if got[0] != 'C': return None
                try: n = Ev(env)(b.len)
                except Undefined: return None
                if got[1] != [n]: return '%s has length %s, expected %s' % (what, got[1], n)
                return self.cells(env, b.arr, got[2], what, [n], scale_)
            if got[0] == '{':
                for k, g in got[1].items():
                    if k in o.f:
                        d = self.cmp(env, s, o.f[k], g, '%s.%s' % (what, k), scale_)
                        if d: return d
            return None
        if isinstance(want, Struct):
            if got[0] != 'S': return None
            try: w = [Ev(env)(want.f[k]) for k in 'xyz' if k in want.f]
            except Undefined: return None
            return None if w == got[1] else '%s is %s, expected %s' % (what, got[1], w)
        if isinstance(want, T):
            if vv.is_any(want) or got[0] not in 'RI': return None
            r = value(env, want)
            if r is None: return None
            w, tol = r
            if want.sort == 'R':
                return None if close(float(got[1]), float(w), tol) else '%s is %r, expected %r' % (what, got[1], w)
            return None if int(w) == int(got[1]) else '%s is %r, expected %r' % (what, got[1], int(w))
        return None
    def cells(self, env, arr, got, what, dims, scale_):
        if arr is None: return None
        if arr.op == 'abase' and vv.is_any_name(arr.args[0]): return None
        exp = []
        for i in range(len(got)):
            exp.append(value(env, sel(arr, I(i))))
        for i, (g, w) in enumerate(zip(got, exp)):
            if w is None: continue
            w, tol = w
            if not close(g, w, tol): return '%s element %d of %s is %r, expected %r' % (what, i, dims, g, w)
        return None

def search(prog, bymn, con, mn, lib, seed=1, budget=60.0, hints=(), inlined=(), maxtests=4000, stop=True):
    """looks for an input on which the real function breaks its contract; returns (description, replay dict) or None"""
    V = vv.Verifier(prog, [], bymn)
    rng = random.Random(seed * 7919 + 13)
    lits, flits = literals(prog, mn, inlined)
    cases = vv.enum_cases(prog, con, mn)
    drv = None
    from .prover import Prover
    info = {'tests': 0}
    t0 = time.time()
    prep = []
    def setups(case):
        s = vv.make_setup(prog, con, mn, case)
        ls = [(oid, len(fam(s.st.bufs[o.f['data'].bid]).shape)) for oid, o in s.st.objs.items() if o.cls == '$Vec' and s.st.bufs[o.f['data'].bid].sort == 'L']
        if not ls: return [s]
        # lists of references: a few literal lengths and element shapes
        out = []
        lo = con.opts.get('lists') or {}
        for i in range(14):
            a, b = rng.choice((1, 2, 3)), rng.choice((1, 2, 3)); n = i % 4
            def sh(nd):
                x = [rng.choice((a, b)) for _ in range(nd)]
                return x + (x if rng.random() < 0.7 else [rng.choice((a, b, 0)) for _ in range(nd)])
            dims = {}
            for oid, nd in ls:
                x = dims[lo[oid]][1:] if lo.get(oid) in dims else sh(nd)
                if 'uniform' in (lo.get(oid), lo.get(lo.get(oid))): x = list(x[:nd]) * 2
                dims[oid] = tuple([n] + list(x))
            out.append(vv.make_setup(prog, con, mn, case, dims))
        return out
    for case, setup in [(k, s) for k in cases for s in setups(k)]:
        prover = Prover()
        try: specs, reqs = V.spec_outcomes(prover, con, setup, setup.this, setup.args, unroll=True)
        except Prune: continue
        if not specs: continue
        prep.append((case, setup, Oracle(specs, reqs, setup)))
    for nm, t, v in (prep[0][1].inputs if prep else []):
        if isinstance(v, FnPtr): USER[v.name] = _user_vec if 'Ref' in t else _user_real
    if not prep: return None, info
    drv = Driver(prog, con, mn)
    drv.compile(lib, prep[0][1])
    t0 = time.time()
    found = []
    rnd = 0
    while time.time() - t0 < budget and info['tests'] < maxtests:
        rnd += 1
        tests = []; meta = []
        gen = Gen(rng, lits, flits)
        for case, setup, orc in prep:
            for _ in range(60 if rnd == 1 else 150):
                gen.new_test(0)
                gen.hint = rng.choice(hints) if hints and rng.random() < 0.4 else {}
                env = fill_inputs(setup, gen)
                if env is None: continue
                try:
                    if orc.select(env) is None: continue
                    tests.append(encode(drv, setup, case, env)); meta.append((case, setup, orc, env))
                except Undefined: continue
        res = run_tests(drv, tests, timeout=max(5.0, budget - (time.time() - t0)))
        for tk, m, r in zip(tests, meta, res):
            if r is None: continue
            info['tests'] += 1
            try: d = m[2].compare(m[3], r)
            except Undefined: d = None
            if d:
                found.append((d, tk, m, r))
                if stop: break
        if found: break
    if not found: return None, info
    found.sort(key=lambda f: len(f[1]))
    d, tk, (case, setup, orc, env), r = found[0]
    rep = {'function': con.name, 'difference': d, 'case': setup.desc, 'inputs': {k: v for k, v in env.items() if not k.startswith('$')},
           'observed': {'objects': r.get('objs'), 'result': r.get('ret'), 'crash': r.get('crash')}, 'driver': drv.src, 'driver_input': 'B 0 ' + ' '.join(tk) + '\nQ\n'}
    return (d, rep), info
