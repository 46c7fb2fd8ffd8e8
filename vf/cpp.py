"""Front end: clang JSON AST of /repo's current sources -> function table.  Nothing is hand copied."""
import json, os, subprocess, hashlib, re, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
FLAGS = ['-std=gnu++14', '-fsyntax-only', '-w', '-DTESTS_ENABLED', '-DNO_SAFE_CAST', '-DUSING_SFW', '-DDEBUG_ENABLED', '-DNDEBUG', '-DX11_ENABLED', '-DUNIX_ENABLED', '-Iplatform/x11', '-Iplatform', '-I.']

class FrontendError(Exception):
    pass

def run_clang(path, filt):
    cmd = ['clang++'] + FLAGS + ['-Xclang', '-ast-dump=json']
    if filt: cmd += ['-Xclang', '-ast-dump-filter=' + filt]
    p = subprocess.run(cmd + [path], cwd=REPO, capture_output=True, text=True)
    if p.returncode != 0:
        raise FrontendError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    return p.stdout

def split_docs(s):
    d = json.JSONDecoder(); i = 0; n = len(s); docs = []
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs

def full_docs(path):
    """the MLPP declarations and everything the main file itself declares, from an unfiltered dump"""
    cmd = ['clang++'] + FLAGS + ['-Xclang', '-ast-dump=json', path]
    p = subprocess.Popen(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    docs = []; cur = []; keep = False; main = False; base = os.path.basename(path); mark = path + '"'
    for line in p.stdout:
        if line == '    {\n': cur = [line]; keep = False; continue
        if not cur: continue
        cur.append(line)
        if '"file": "' in line and len(line) - len(line.lstrip(' ')) <= 8:
            f = line.split('"file": "', 1)[1].split('"', 1)[0]
            main = f == path or os.path.normpath(os.path.join(REPO, f)) == os.path.normpath(os.path.join(REPO, path))
        if '"name": "MLPP' in line: keep = True
        if line.startswith('    }') and line.rstrip(',\n') == '    }':
            if keep or main:
                docs.append(json.loads(''.join(cur).rstrip().rstrip(',')))
            cur = []
    err = p.stderr.read()
    if p.wait() != 0: raise FrontendError('clang failed on %s: %s' % (path, err[-2000:]))
    return docs

class TU:
    def __init__(self, path):
        self.path = path
        self.decls = {}      # id -> node (functions, records, fields, enums, vars)
        self.mangled = {}    # decl id -> mangled name

class Program:
    """all functions of the loaded translation units, keyed by mangled name"""
    def __init__(self):
        self.tus = {}
        self.funcs = {}      # mangled -> (tu, node) with body
        self.protos = {}     # mangled -> (tu, node) any declaration (for default arguments)
        self.byname = {}     # 'Class::method' -> set(mangled)
        self.classes = {}    # name -> dict(fields=[(name,type,init)], bases=[..])
        self.enums = {}      # constant name (qualified by class) -> int
        self.enums_types = {}  # enumeration -> values

    def load(self, paths):
        todo = [p for p in paths if p not in self.tus]
        with ThreadPoolExecutor(8) as ex:
            for path, out in zip(todo, ex.map(lambda p: run_clang(p, 'MLPP'), todo)):
                self.add_tu(path, out)

    def add_tu(self, path, out):
        docs = split_docs(out)
        if self.needs_full(path, docs): docs = full_docs(path)
        tu = TU(path)
        self.tus[path] = tu
        for d in docs:
            self._decl(tu, d, None)

    def needs_full(self, path, docs):
        """does the code refer to functions or variables which the file defines outside the MLPP classes?"""
        ids = set(); refs = {}
        def walk(n):
            i = n.get('id')
            if i: ids.add(i)
            r = n.get('referencedDecl')
            if r and r.get('kind') in ('FunctionDecl', 'VarDecl', 'CXXMethodDecl') and r.get('name'): refs[r['id']] = r['name']
            for c in n.get('inner', ()): walk(c)
        for d in docs: walk(d)
        names = {nm for i, nm in refs.items() if i not in ids}
        if not names: return False
        try: text = open(os.path.join(REPO, path), errors='replace').read()
        except OSError: return False
        for nm in names:
            if not re.match(r'^[A-Za-z_]\w*$', nm): continue
            if re.search(r'(?m)^[ \t]*(?:[A-Za-z_][\w:<>,&* \t]*[\s&*>])?' + nm + r'\s*(?:\([^;{}]*\)\s*(?:noexcept\s*)?\{|(?:\[[^\]]*\]\s*)*=[^=])', text) and \
               not re.search(r'(?m)::' + nm + r'\s*\([^;{}]*\)\s*(?:const\s*)?\{', text):
                return True
        return False

    def _decl(self, tu, d, cls):
        k = d.get('kind')
        if k is None: return
        if 'id' in d: tu.decls[d['id']] = d
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = d.get('name', '')
            if cls: qn = cls + '::' + name
            else: qn = name
            if d.get('completeDefinition') and not d.get('isImplicit'):
                info = {'fields': [], 'bases': [b['type'].get('desugaredQualType', b['type']['qualType']) for b in d.get('bases', [])]}
                for c in d.get('inner', []):
                    if c['kind'] == 'FieldDecl':
                        info['fields'].append((c.get('name'), c['type'], c.get('inner')))
                self.classes[qn] = info
                self.classes.setdefault(name, info)
            for c in d.get('inner', []):
                self._decl(tu, c, qn)
        elif k == 'EnumDecl':
            v = -1
            for c in d.get('inner', []):
                if c['kind'] == 'EnumConstantDecl':
                    v += 1
                    e = c.get('inner')
                    if e:
                        x = _const(e[0])
                        if x is not None: v = x
                    tu.decls[c['id']] = c
                    c['_value'] = v
                    self.enums[c['name']] = v
                    if d.get('name'): self.enums_types.setdefault(d['name'], set()).add(v)
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl', 'CXXConversionDecl'):
            mn = d.get('mangledName') or d.get('name')
            if k == 'FunctionDecl' and (d.get('storageClass') == 'static' or '_GLOBAL__N_' in mn): mn += '@' + tu.path
            d['_cls'] = cls
            if k != 'FunctionDecl' and cls is None:
                # out-of-class definition: class from mangled name / previous decl
                pd = tu.decls.get(d.get('previousDecl'))
                d['_cls'] = pd.get('_cls') if pd else None
                if pd and pd.get('storageClass') == 'static': d['storageClass'] = 'static'
            tu.mangled[d['id']] = mn
            hasbody = any(c['kind'] == 'CompoundStmt' for c in d.get('inner', []))
            d['_params'] = [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl']
            for c in d['_params']: tu.decls[c['id']] = c
            if hasbody:
                if mn not in self.funcs:
                    self.funcs[mn] = (tu, d)
                q = (d['_cls'] + '::' if d.get('_cls') else '') + d['name']
                self.byname.setdefault(q, [])
                if mn not in self.byname[q]: self.byname[q].append(mn)
            if mn not in self.protos or any(c.get('init') for c in d['_params']):
                self.protos[mn] = (tu, d)
        elif k in ('VarDecl', 'FieldDecl', 'EnumConstantDecl', 'TypedefDecl'):
            pass
        elif k in ('NamespaceDecl', 'LinkageSpecDecl', 'FunctionTemplateDecl'):
            for c in d.get('inner', []): self._decl(tu, c, cls)

    def find(self, qname, sig=None):
        """qname 'Class::method'; sig optional substring of the type or parameter count"""
        ms = self.byname.get(qname, [])
        if sig is not None:
            ms = [m for m in ms if sig in self.funcs[m][1]['type']['qualType']]
        return ms

def _const(e):
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        return int(e['value'])
    if e.get('kind') == 'IntegerLiteral': return int(e['value'])
    for c in e.get('inner', []):
        x = _const(c)
        if x is not None: return x
    return None

def qtype(n):
    t = n['type'] if 'type' in n else n
    return t.get('desugaredQualType', t['qualType'])

def strip_type(t):
    t = t.replace('const ', '').strip()
    while t.endswith('&') or t.endswith(' '):
        t = t[:-1]
    return t.replace('class ', '').replace('struct ', '')

def srcline(n):
    r = n.get('range', {}).get('begin', {})
    for x in (r, r.get('expansionLoc', {}), r.get('spellingLoc', {})):
        if 'line' in x: return x['line']
    return None
