import sys,time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from vf import verify, registry
prog, cons, bymn = registry.load(sys.argv[1].split(','))
pat = sys.argv[2] if len(sys.argv)>2 else ''
V = verify.Verifier(prog, cons, bymn)
nok=n=0
import os
for c in cons:
    if c.module not in sys.argv[1].split(','): continue
    if pat and not any(p in c.name for p in pat.split(',')): continue
    t=time.time(); r=V.verify(c, float(os.environ.get('B','100'))); n+=1; nok+=r.ok
    if not r.ok or os.environ.get('A'): print('%-55s %s %5.1fs cases=%d obls=%d'%(c.name,'ok ' if r.ok else 'FAIL',time.time()-t,len(r.cases),sum(len(x.obls) for x in r.cases)), flush=True)
    if not r.ok:
        seen=set()
        for a,b in r.failures():
            k=b
            if k in seen: continue
            seen.add(k)
            if len(seen)>6: break
            print('     ',a,'|',b)
        if os.environ.get('D'):
            for cc in r.cases:
                for o in cc.obls:
                    if o.status!='proved': print(cc.name,o.what,o.detail); break
print(nok,'/',n)
