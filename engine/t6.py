"""exploration: non-conforming calls"""
import sys,time
sys.path.insert(0,'/verif/engine')
from runner import *
from neg import *
from concurrent.futures import ProcessPoolExecutor
P=Prog('/verif/build/%s.json'%sys.argv[1])
names=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else None
insts=instances(P,names)
todo=[(i,d) for i,(f,sp) in enumerate(insts) for d in combos(P,f,sp)]
def one(a):
    i,d=a
    f,sp=insts[i]
    t=time.time()
    try:
        r=rejects(P,f,sp,d,15)
    except Exception as x:
        return i,d,None,['EXC '+repr(x)+traceback.format_exc()[-700:]],time.time()-t
    return i,d,r.n,[repr(x) for x in r.found],time.time()-t
if __name__=='__main__':
    t0=time.time(); seen=set(); tot={}
    with ProcessPoolExecutor(8) as ex:
        for i,d,n,fo,dt in ex.map(one,todo):
            f=insts[i][0]
            if dt>8: print('%s %.1fs'%(f['n'],dt))
            for k,v in (n or {}).items(): tot[k]=tot.get(k,0)+v
            for x in fo:
                k=x.split(' when ')[0].replace(optname(f,d),'')
                if k in seen: continue
                seen.add(k); print('  ',x[:300])
    print(len(insts),len(todo),tot,'%.1f'%(time.time()-t0))
