import sys; sys.path.insert(0,'/verif')
from vf import cpp
P=cpp.Program()
P.load(sys.argv[1].split(','))
def show(n,d=0,maxd=60):
    k=n.get('kind'); t=cpp.qtype(n) if 'type' in n else ''
    ex=' '.join('%s=%s'%(x,n[x]) for x in('name','opcode','castKind','value','isArrow','referencedMemberDecl','valueCategory') if x in n)
    r=n.get('referencedDecl'); 
    if r: ex+=' ->%s %s %s'%(r['kind'],r.get('name'),r['id'])
    print('  '*d,k,'['+t+']',ex,n.get('id') if 'Decl' in (k or '') else '')
    for c in n.get('inner',[]): show(c,d+1)
for f in sys.argv[2:]:
    for m in P.byname[f]:
        print('=====',m); show(P.funcs[m][1])
