import sys,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from vf import native, registry, verify
prog,cons,bymn=registry.load(sys.argv[1].split(','))
lib=native.Lib(); t=time.time(); lib.build(); print('build',time.time()-t, lib.errors)
import os
for c in cons:
    if c.module not in sys.argv[1].split(','): continue
    if len(sys.argv)>2 and not any(p in c.name for p in sys.argv[2].split(',')): continue
    mn,e=verify.resolve(prog,c)
    t=time.time()
    try: r,info=native.search(prog,bymn,c,mn,lib,budget=float(os.environ.get('B','8')),maxtests=600)
    except Exception as e:
        import traceback; traceback.print_exc(); print(c.name,'ERR',str(e)[:600]); continue
    print(c.name, 'DIFF '+r[0]+' '+r[1]['case'] if r else 'same', info, '%.1f'%(time.time()-t))
lib.close()
