import sys,time
sys.path.insert(0,'/verif/engine')
from entry import *
import isl
P=Prog('/verif/build/%s.json'%sys.argv[1])
name=sys.argv[2]
opts=eval('dict(%s)'%(sys.argv[3] if len(sys.argv)>3 else ''))
for f in P.byname[name][:int(sys.argv[5]) if len(sys.argv)>5 else 99]:
    if not f.get('root') or f.get('body') is None: continue
    t=time.time(); isl.NOPS=0
    I=Eval(P)
    c,st=mkargs(I,f,opts)
    try:
        outs=run(I,f,c,st)
    except Stop as x:
        print('STOP',x, P.file(f),I.curfile,I.curline); continue
    print(f['name'],f['id'],P.file(f).split('/')[-1],'events',len(I.ev),'outs',len(outs),'t %.2f'%(time.time()-t),isl.NOPS,I.unkcalls)
    if len(sys.argv)>4:
        for e in I.ev: 
            print('  ',e.k,e.root.name if e.root else '',e.ix,e.op and e.op[0],'L%d'%e.loc[1],e.x if e.k!='S' else '', (str(e.ctx)[:300]), repr(e.val)[:200])
        for q,v in outs: print('  out',v,str(q.ctx)[:200])
