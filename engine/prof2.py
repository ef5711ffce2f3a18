import sys,time,cProfile,pstats,collections
sys.path.insert(0,'/verif/engine')
from runner import *
P=Prog('/verif/build/%s.json'%sys.argv[1])
skip=int(sys.argv[4]) if len(sys.argv)>4 else 0
want=int(sys.argv[5]) if len(sys.argv)>5 else 0
for f,sp in instances(P,sys.argv[2].split(',')):
    d=list(combos(P,f,sp))[skip]
    work=[()]
    while work:
        cs=work.pop()
        R=prepare(P,f,sp,d,conds=cs,autosplit=len(cs)<5)
        cnt=collections.Counter(); tim=collections.Counter()
        o=R.I.invoke
        def inv(g,*a,**k):
            t=time.time()
            try: return o(g,*a,**k)
            finally: cnt[g['n']]+=1; tim[g['n']]+=time.time()-t
        R.I.invoke=inv
        andt=collections.Counter()
        import isl as II
        pr=cProfile.Profile(); pr.enable()
        execute(R,int(sys.argv[3]))
        pr.disable()
        if R.status=='split':
            work+=[cs+(x,) for x in R.sets]; print('split',R.I.curfile.split('/')[-1],R.I.curline,[str(x)[:100] for x in R.sets]); continue
        print(R.status,getattr(R,'where',''),round(R.t,1),len(R.I.ev),'nbasic',R.st.ctx.nbasic())
        if R.t>5:
            print(tim.most_common(12)); print(cnt.most_common(8))
            if want: pstats.Stats(pr).sort_stats('tottime').print_stats(want)
    break
