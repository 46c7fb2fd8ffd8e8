"""python3 tools/mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=C++ body, needs, breaks)]
Builds /verif/seeded/<id>/ and confirms in /repo: demo passes unchanged, fails with the change, tests still pass; undoes the change."""
import sys, os, json, subprocess, textwrap
REPO = '/repo'; OUT = '/verif/seeded'
SH = '''#!/bin/bash
# run with cwd = the repository after its build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++14 -O1 -w -fno-exceptions -fno-rtti -DNO_SAFE_CAST -DUSING_SFW -DDEBUG_ENABLED -DNDEBUG -DX11_ENABLED -DUNIX_ENABLED -D_FILE_OFFSET_BITS=64 %s\\
	-Iplatform/x11 -Iplatform -I. "$D/demo.cpp" -o "$W/demo" -Wl,--start-group libmlpp.x11.opt.debug.64.a platform/libplatform.x11.opt.debug.64.a -Wl,--end-group -lpthread -ldl -lm || exit 99
cd "$W" && timeout 120 ./demo >out.txt 2>&1
R=$?
tail -5 out.txt
exit $R
'''
PRE = '''#include <cstdio>
#include <cmath>
#include <cstdlib>
#include "sfw.h"
%s
static int bad = 0;
static void check(bool ok, const char *what) { if (!ok) { ++bad; printf("WRONG: %%s\\n", what); } }
static bool near_(double a, double b, double tol = 1e-3) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
static Ref<MLPPVector> vec(std::initializer_list<double> l) { Ref<MLPPVector> v; v.instance(); for (double x : l) v->push_back(x); return v; }
static Ref<MLPPMatrix> mat(int h, int w, std::initializer_list<double> l) { Ref<MLPPMatrix> m; m.instance(); m->resize(Size2i(w, h)); int i = 0; for (double x : l) m->ptrw()[i++] = x; return m; }
int main() {
%s
	return bad ? 1 : 0;
}
'''
HEAD = ['core/mlpp_vector.h', 'core/mlpp_matrix.h', 'core/mlpp_tensor3.h']
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): run('git -C %s checkout -- .' % REPO)
def build(): return run('bash /opt/vp/build.sh')
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert run('git -C %s status --porcelain' % REPO).stdout.strip() == ''
    r = build(); assert r.returncode == 0
    base = json.load(open('/opt/vp/BASELINE.json')); 
    todo = []
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = os.path.join(OUT, s['id']); os.makedirs(d, exist_ok=True)
        incs = HEAD + s.get('inc', [])
        open(d + '/demo.cpp', 'w').write(PRE % ('\n'.join('#include "%s"' % i for i in incs), textwrap.indent(textwrap.dedent(s['demo']).strip('\n'), '\t')))
        open(d + '/demo.sh', 'w').write(SH % (s.get('flags', '') and s['flags'] + ' ')); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = run('bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode != 0: print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-500:], r.stderr[-800:]); continue
        todo.append((s, d))
    for s, d in todo:
        try:
            for f, old, new in s['edits']:
                p = os.path.join(REPO, f); t = open(p).read()
                if isinstance(old, tuple):
                    a, b, old = old
                    i = t.index(a); j = t.index(b, i + 1) if b else len(t)
                else: i, j = 0, len(t)
                assert t[i:j].count(old) == 1, (s['id'], t[i:j].count(old), old)
                open(p, 'w').write(t[:i] + t[i:j].replace(old, new) + t[j:])
            diff = run('git -C %s diff' % REPO).stdout
            open(d + '/patch.diff', 'w').write(diff)
            for f, _, _ in s['edits']:
                o = run('git -C %s show 5c2deaf:%s' % (REPO, f)).stdout.splitlines()
                for l in run('git -C %s diff -U0 -- %s' % (REPO, f)).stdout.splitlines():
                    if l.startswith('-') and not l.startswith('---') and l[1:] not in o: print(s['id'], 'WARNING: not an original line', l)
            r = build()
            if r.returncode != 0: print(s['id'], 'DOES NOT BUILD', (r.stdout + r.stderr)[-800:]); continue
            r = run('bash %s/demo.sh' % d, cwd=REPO)
            if r.returncode == 0: print(s['id'], 'DEMO PASSES WITH THE CHANGE'); continue
            if r.returncode == 99: print(s['id'], 'DEMO DOES NOT COMPILE', r.stderr[-500:]); continue
            r2 = run('bash /opt/vp/test.sh /tmp/seedtest.json')
            t = json.load(open('/tmp/seedtest.json'))
            lost = [x for x in (base.get('passed') or base.get('tests') or base.get('stable') or []) if x not in t['passed']]
            if t['failed'] or len(t['passed']) != 88: print(s['id'], 'TESTS FAIL', t['failed'][:3], len(t['passed'])); continue
            print(s['id'], 'ok: demo exit', r.returncode, r.stdout.strip().splitlines()[-1:])
        finally:
            clean()
    build()
main()
