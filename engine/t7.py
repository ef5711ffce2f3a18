"""exploration: formulas"""
import sys,time
sys.path.insert(0,'/verif/engine')
from runner import *
import formula as FM
from concurrent.futures import ProcessPoolExecutor
P=Prog('/verif/build/%s.json'%sys.argv[1])
names=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else None
sec=int(sys.argv[3]) if len(sys.argv)>3 else 20
insts=[x for x in instances(P,names) if FM.find_formula(x[0])]
todo=[(i,d) for i,(f,sp) in enumerate(insts) for d in combos(P,f,sp)]
def one(a):
    i,d=a
    f,sp=insts[i]
    t=time.time()
    try:
        r=FM.check_formula(P,f,sp,d,sec)
    except Exception as x:
        return i,d,'EXC '+repr(x)+traceback.format_exc()[-700:],0,[],time.time()-t
    return i,d,r['state'],r['terms'],[repr(x) for x in r['found']],time.time()-t
if __name__=='__main__':
    t0=time.time(); seen=set(); st={}
    with ProcessPoolExecutor(8) as ex:
        for i,d,s,n,fo,dt in ex.map(one,todo):
            f=insts[i][0]
            st[s.split(':')[0].split(' ')[0]]=st.get(s.split(':')[0].split(' ')[0],0)+1
            kk=(f['n'],s)
            if kk in seen: continue
            if s!='ok': seen.add(kk)
            if s!='ok' or dt>8: print('%-50s %s %5.1fs'%((f['n']+':'+str(f['line'])+'['+optname(f,d)+']')[:70],s[:700],dt))
            for x in fo: print('   ',x[:600])
    print(len(insts),len(todo),st,'%.1f'%(time.time()-t0))
