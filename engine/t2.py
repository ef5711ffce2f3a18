import sys,time,signal,collections,traceback
sys.path.insert(0,'/verif/engine')
from entry import *
import isl
from concurrent.futures import ProcessPoolExecutor
P=Prog('/verif/build/%s.json'%sys.argv[1])
def one(i):
    f=P.fns[i]
    t=time.time()
    def al(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM,al); signal.alarm(40)
    I=Eval(P)
    try:
        c,st=mkargs(I,f); outs=run(I,f,c,st); r='ok'
    except Stop as x: r='STOP %s @%s:%s'%(x,I.curfile.split('/')[-1],I.curline)
    except TimeoutError: r='TIME @%s:%s'%(I.curfile.split('/')[-1],I.curline)
    except IslError as x: r='ISL @%s:%s'%(I.curfile.split('/')[-1],I.curline)+traceback.format_exc().split('\n')[-6].strip()
    except Exception as x: r='EXC %r @%s:%s '%(x,I.curfile.split('/')[-1],I.curline)+traceback.format_exc().split('\n')[-4].strip()+traceback.format_exc().split('\n')[-3]
    signal.alarm(0)
    return i,r,time.time()-t,len(I.ev),I.unkcalls
if __name__=='__main__':
    todo=[]; seen=set()
    for f in P.fns:
        if not f or not f.get('root') or f.get('body') is None or f.get('rec') is not None and f.get('m'): continue
        fl=P.file(f)
        if '/plugins/' in fl or '/base/' in fl: continue
        if f['n'].startswith('operator'): continue
        k=(f['n'],len(f['params']))
        if k in seen: continue
        seen.add(k); todo.append(f['id'])
    cnt=collections.Counter(); unk=collections.Counter()
    with ProcessPoolExecutor(8) as ex:
        for i,r,dt,n,u in ex.map(one,todo):
            f=P.fns[i]; cnt[r.split()[0]]+=1
            for k,v in u.items(): unk[k]+=v
            if r!='ok' or dt>10: print('%-30s %5.1f %5d %s'%(f['n'],dt,n,r[:200]))
    print(cnt); print(unk)
