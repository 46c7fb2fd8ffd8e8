"""Decides one property: verifies every function under contract for it, and the functions those contracts rest on,
against the current sources.   python3-vt -m vf.check C01 [--tier quick|thorough]"""
import sys, os, time, json, pickle, signal, select, traceback, hashlib
sys.setrecursionlimit(20000)
from . import registry, verify, cpp, bounded
from .verify import Verifier, resolve, enum_cases
from .prover import STATS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VF_JOBS', '8'))

class Pool:
    """one forked process per job, hard time limits"""
    def __init__(self, n): self.n = n; self.queue = []; self.run = {}
    def add(self, key, fn, limit): self.queue.append((key, fn, limit))
    def start(self):
        while self.queue and len(self.run) < self.n:
            key, fn, limit = self.queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0)
                    try: out = ('ok', fn())
                    except BaseException as e: out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                    data = pickle.dumps(out)
                    with os.fdopen(w, 'wb') as f: f.write(data)
                except BaseException: code = 1
                finally: os._exit(code)
            os.close(w)
            self.run[r] = [key, pid, time.time() + limit, b'']
    def results(self):
        """yields (key, status, value) until nothing is left"""
        while self.queue or self.run:
            self.start()
            rd, _, _ = select.select(list(self.run), [], [], 0.2)
            now = time.time()
            for r in list(self.run):
                key, pid, lim, buf = self.run[r]
                if r in rd:
                    b = os.read(r, 1 << 20)
                    if b: self.run[r][3] += b; continue
                    os.close(r); os.waitpid(pid, 0); del self.run[r]
                    try: st, v = pickle.loads(buf)
                    except Exception: st, v = 'error', 'worker died'
                    yield key, st, v
                elif now > lim:
                    try: os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        try: os.kill(pid, signal.SIGKILL)
                        except OSError: pass
                    os.close(r); os.waitpid(pid, 0); del self.run[r]
                    yield key, 'error', 'time limit'
    def kill(self):
        for r, (key, pid, lim, buf) in self.run.items():
            try: os.killpg(pid, signal.SIGKILL)
            except OSError: pass

def summarise(r):
    cs = []
    for c in r.cases:
        kinds = {}
        for o in c.obls: kinds[o.what.split(':')[0]] = kinds.get(o.what.split(':')[0], 0) + 1
        cs.append({'name': c.name, 'skipped': c.skipped, 'error': c.error, 'n': len(c.obls), 'proved': sum(o.status == 'proved' for o in c.obls),
                   'points': [o.point for o in c.obls if o.point][:4], 'paths': c.paths, 'spec_paths': c.spec_paths, 'matched': len(c.matched), 'kinds': kinds,
                   'fail': [(o.what, o.status, o.where, o.detail) for o in c.obls if o.status != 'proved'][:8]})
    return {'error': r.error, 'cases': cs, 'used': dict(r.used), 'inlined': dict(r.inlined), 'notes': sorted(r.notes), 'stats': dict(r.stats), 'time': r.time}

class Item:
    def __init__(self, con, mn, root): self.con = con; self.mn = mn; self.root = root; self.parts = {}; self.want = 0; self.error = None
    @property
    def cases(self): return [c for k in sorted(self.parts) for c in self.parts[k]['cases']]
    @property
    def points(self):
        out = []
        for c in self.cases:
            for p in c.get('points', ()):
                if p not in out: out.append(p)
        return out[:8]
    def failures(self):
        out = []
        if self.error: out.append(('', self.error, '', ''))
        for k in sorted(self.parts):
            p = self.parts[k]
            if p['error']: out.append(('', p['error'], '', ''))
            for c in p['cases']:
                if c['error']: out.append((c['name'], c['error'], '', ''))
                for w, s, wh, d in c['fail']: out.append((c['name'], '%s [%s]' % (w, s), wh, d))
        if not out and self.parts and all(c['skipped'] for c in self.cases): out.append(('', 'the precondition holds in no case', '', ''))
        return out

def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'): out.append(dict(kv.split('=', 1) for kv in l.split(None, 3)[1:3]) | {'text': l.split(None, 3)[3]})
    return out

def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    total = 820.0 if not thorough else 3600.0
    budget = 150.0 if not thorough else 600.0
    mods = registry.for_property(pid)
    prog, cons, bymn = registry.load_modules(mods)
    V = Verifier(prog, cons, bymn)
    kf = known_findings()
    for c in cons:
        # a recorded defect: the function is held to its recorded behaviour (anything else is reported), or to its definition once repaired
        if 'recorded' in c.opts and any(k.get('function') == c.name for k in kf):
            c.definition = c.fn; c.fn = c.opts['recorded']
    kf = [k for k in kf if k.get('property') == pid]
    roots = [c for c in cons if pid in c.props]
    if not roots: print('no contract for', pid); return 2
    items = {}; order = []
    missing = []
    pool = Pool(NPROC)
    def enqueue(con, root):
        mn, err = resolve(prog, con)
        if err: missing.append((con, err)); return
        if mn in items: return
        it = Item(con, mn, root); items[mn] = it; order.append(mn)
        try: cases = enum_cases(prog, con, mn)
        except Exception as e: it.error = str(e); return
        b = con.opts.get('budget', budget)
        if con.opts.get('bounded'):
            it.want = 0; return
        if len(cases) >= 4 or con.opts.get('split'):
            it.want = len(cases)
            for k in range(len(cases)):
                pool.add((mn, k), lambda con=con, k=k, b=b: summarise(V.verify(con, b, only_case=k)), b + 40)
        else:
            it.want = 1
            pool.add((mn, -1), lambda con=con, b=b: summarise(V.verify(con, b)), b * 1.2 + 40)
    for c in roots: enqueue(c, True)
    prove_limit = total * 0.6
    for key, st, v in pool.results():
        mn, k = key
        it = items[mn]
        if st == 'ok':
            it.parts[k] = v
            for u in v['used']:
                if u in bymn: enqueue(bymn[u], False)
        else:
            it.parts[k] = {'error': str(v).split('\n')[0] if v == 'time limit' else v, 'cases': [], 'used': {}, 'inlined': {}, 'notes': [], 'stats': {}, 'time': 0}
        if time.time() - t0 > prove_limit:
            for q in pool.queue: items[q[0][0]].parts[q[0][1]] = {'error': 'time limit', 'cases': [], 'used': {}, 'inlined': {}, 'notes': [], 'stats': {}, 'time': 0}
            pool.queue = []
    prove_s = time.time() - t0
    alts = [items[m] for m in order if hasattr(items[m].con, 'definition') and items[m].failures()]
    if alts:
        def redo(it):
            it.con.fn = it.con.definition
            return summarise(V.verify(it.con, budget))
        p3 = Pool(NPROC)
        for it in alts: p3.add(it.mn, lambda it=it: redo(it), budget * 1.2 + 40)
        for mn, st, v in p3.results():
            if st == 'ok':
                old = items[mn].parts
                items[mn].parts = {-1: v}
                if items[mn].failures(): items[mn].parts = old
                else: kf = [k for k in kf if k.get('function') != items[mn].con.name]
    bad = [items[m] for m in order if items[m].failures() or items[m].con.opts.get('bounded')]
    # ---------------------------------------------------------------- failed obligations
    violations = []; bnd = {}; natinfo = {}
    need_native = [it for it in bad if it.con.opts.get('native', True)]
    extra = [items[m] for m in order if items[m].con.opts.get('native', thorough) and items[m] not in bad]
    lib = None
    if bad or extra:
        from . import native
        lib = native.Lib()
        try:
            if need_native or extra: lib.build()
            def nat(it, b):
                return native.search(prog, bymn, it.con, it.mn, lib, seed=seed, budget=b, hints=it.points, inlined=[m for p in it.parts.values() for m in p['inlined']], maxtests=3000 if not thorough else 30000)
            def bch(it, b):
                return bounded.check(V, it.con, it.mn, seed=seed, budget=b, hints=it.points)
            left = total - (time.time() - t0)
            nb = max(5.0, min(25.0 if not thorough else 60.0, left * 0.3 / max(1, (len(bad) + 7) // 8)))
            bb = max(8.0, min(100.0 if not thorough else 400.0, left * 0.5 / max(1, (len(bad) + 7) // 8)))
            p2 = Pool(NPROC)
            for it in need_native:
                p2.add(('n', it.mn), lambda it=it: nat(it, nb), nb * 2 + 60)
            for it in bad:
                p2.add(('b', it.mn), lambda it=it: bch(it, bb), bb + 30)
            for it in extra:
                p2.add(('x', it.mn), lambda it=it: nat(it, 12.0), 90)
            for (k, mn), st, v in p2.results():
                if k in 'nx': natinfo[mn] = v if st == 'ok' else (None, {'error': str(v)[:600]})
                else: bnd[mn] = v if st == 'ok' else ('unknown', str(v)[:300], 0)
        finally: lib.close()
    rdir = os.path.join(HERE, 'evidence', 'replay')
    def write_replay(name, data):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%s.json' % (pid, ''.join(ch if ch.isalnum() else '_' for ch in name)))
        json.dump(data, open(p, 'w'), indent=1, default=str)
        return os.path.relpath(p, HERE)
    nbounded = 0; bounded_fns = []; lines = []
    gone = ['%s: no longer in the source under this name; its callers are checked against its body' % con.name for con, err in missing]
    if not items:
        p = write_replay(pid, {'property': pid, 'obligation': 'the functions under contract exist', 'output': [e for _, e in missing]})
        violations.append((pid, p, False)); lines += [e for _, e in missing]
    for it in bad + extra:
        fl = it.failures()
        nr = natinfo.get(it.mn)
        if nr and nr[0]:
            d, rep = nr[0]
            rep = dict(rep, property=pid, obligations=[{'case': a, 'obligation': b, 'where': c, 'output': e} for a, b, c, e in fl])
            p = write_replay(it.con.name, rep)
            violations.append((it.con.name, p, True)); lines.append('%s: %s' % (it.con.name, d)); continue
        if it in extra: continue
        bs, bd, bn = bnd.get(it.mn, ('unknown', '', 0))
        if bs == 'ok':
            nbounded += bn; bounded_fns.append('%s (sizes 0..3, %s; not proved for all sizes: %s)' % (it.con.name, bd, fl[0][1] if fl else 'declared bounded')); continue
        p = write_replay(it.con.name, {'property': pid, 'function': it.con.name, 'obligations': [{'case': a, 'obligation': b, 'where': c, 'output': e} for a, b, c, e in fl],
                                       'bounded': [bs, bd], 'native_search': nr[1] if nr else None})
        violations.append((it.con.name, p, False))
        lines.append('%s: %s; %s; bounded: %s %s' % (it.con.name, fl[0][0] if fl else '', fl[0][1] if fl else '', bs, bd))
    # ---------------------------------------------------------------- evidence
    obl = sum(c['n'] for m in order for c in items[m].cases)
    prv = sum(c['proved'] for m in order for c in items[m].cases)
    stats = {}
    for m in order:
        for p in items[m].parts.values():
            for k, x in p['stats'].items(): stats[k] = stats.get(k, 0) + x
    notes = sorted({n for m in order for p in items[m].parts.values() for n in p['notes']})
    inl = sorted({n for m in order for p in items[m].parts.values() for n in p['inlined'].values()})
    asm = ['real_t arithmetic is real arithmetic (rounding, overflow to infinity and NaN are not modelled); int arithmetic does not overflow',
           'memory allocation succeeds; Ref<T>, Vector<T>, PoolVector<T>, std::vector<T>, Size2i/Size3i behave as their documented value semantics (sfw and libstdc++ are trusted)',
           'exp, log, sqrt, pow, sin, cos, erf ... are uninterpreted functions of their arguments with the listed algebraic simplifications',
           'logging calls have no effect on the result; error macros log and return',
           'input objects are distinct or aliased as in the listed cases; three or more reference parameters: one deviation from all-distinct at a time'] + notes
    fns = [{'function': items[m].con.name, 'role': 'property' if items[m].root else 'callee', 'cases': len(items[m].cases), 'obligations': sum(c['n'] for c in items[m].cases),
            'discharged': sum(c['proved'] for c in items[m].cases), 'seconds': round(sum(p['time'] for p in items[m].parts.values()), 2),
            'contract_outcomes': sum(c['spec_paths'] for c in items[m].cases), 'outcomes_reached': sum(c['matched'] for c in items[m].cases)} for m in order]
    proved_fns = [m for m in order if items[m] not in bad]
    cov = {'obligations': obl, 'discharged': prv, 'checker_cmd': 'python3-vt -m vf.check %s --tier %s' % (pid, tier),
           'trusted_base': ['clang 18 front end (AST)', 'vf symbolic executor, loop summariser and normaliser (this repository)', 'z3 (python bindings)'],
           'functions_under_contract': len(order), 'functions_proved_for_all_inputs': len(proved_fns), 'functions_bounded': bounded_fns, 'bounded_obligations': nbounded,
           'functions': fns, 'inlined_helpers': inl, 'functions_not_found': gone,
           'back_ends': {'normaliser': stats.get('normaliser', 0), 'z3': stats.get('z3', 0), 'queries_to_z3': stats.get('queries', 0), 'z3_seconds': round(stats.get('z3_time', 0), 2)},
           'native_inputs_tried': sum((v[1] or {}).get('tests', 0) for v in natinfo.values()), 'proof_seconds': round(prove_s, 1)}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': asm, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d proved for all inputs, %d bounded, %d/%d obligations discharged, %.0f s' % (pid, len(order), len(proved_fns), len(bounded_fns), prv, obl, time.time() - t0))
    for b in bounded_fns: print('bounded: ' + b)
    for g in gone: print('not found: ' + g)
    for k in kf: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k.get('function', ''), k['text']))
    for l in lines: print('  ' + l[:700])
    for name, p, found in violations:
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if found else ' no-failing-input-found'))
    return 1 if violations else 0

if __name__ == '__main__':
    try: rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
