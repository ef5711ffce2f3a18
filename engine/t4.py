import sys,time
sys.path.insert(0,'/verif/engine')
from runner import *
from concurrent.futures import ProcessPoolExecutor
P=Prog('/verif/build/%s.json'%sys.argv[1])
names=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else None
props=set((sys.argv[3] if len(sys.argv)>3 else 'C01,C02,C04,C09,C20').split(','))
sec=int(sys.argv[4]) if len(sys.argv)>4 else 30
insts=instances(P,names)
todo=[(i,d) for i,(f,sp) in enumerate(insts) for d in combos(P,f,sp)]
def one(a):
    i,d=a
    f,sp=insts[i]
    t=time.time()
    try:
        r=analyse(P,f,sp,d,props,sec)
    except Exception as x:
        return i,d,'EXC '+repr(x)+traceback.format_exc()[-500:],{},[],time.time()-t,0
    if r is None: return i,d,'nocontract',{},[],0,0
    return i,d,r.state,r.n,[repr(x) for x in r.found],time.time()-t,len(r.runs)
if __name__=='__main__':
    tot={}; seen=set(); t0=time.time(); st={}
    with ProcessPoolExecutor(8) as ex:
        for i,d,s,n,fo,dt,ne in ex.map(one,todo):
            f=insts[i][0]
            for k,v in n.items(): tot[k]=tot.get(k,0)+v
            st[s.split(' ')[0]]=st.get(s.split(' ')[0],0)+1
            if s!='ok' or dt>8: print('%-60s %-40s %5.1fs runs=%d %s'%((f['n']+'['+optname(f,d)+']')[:60],s[:300],dt,ne,n))
            for x in fo:
                k=x.split(' when ')[0]
                k=k.split(': ',1)[0]
                if k in seen: continue
                seen.add(k); print('   ',x[:330])
    print(len(insts),'instances',len(todo),'runs',tot,st,'%.1fs'%(time.time()-t0))
