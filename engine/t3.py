import sys
sys.path.insert(0,'/verif/engine')
from entry import *
P=Prog('/verif/build/%s.json'%sys.argv[1])
seen=set(); out={}
for f in P.fns:
    if not f or not f.get('root') or f.get('body') is None or (f.get('rec') is not None and f.get('m')): continue
    fl=P.file(f)
    if '/plugins/' in fl or '/base/' in fl or f['n'].startswith('operator') or f.get('ctor'): continue
    sg=[]
    for p in f['params']:
        t0=P.T(p['t']); ty=P.base(p['t']); ref=t0['k'] in('ref','rref'); cst=not ref or ty.get('const')
        k=ekind(P,ty); 
        kk={'enum':'e','mat':'M','vec':'V','flt':'s','int':'i','bool':'b','fnp':'f','rec':'o'}[k]
        if k=='enum': kk=ty['name'].split('::')[-1]+':'
        sg.append(('' if cst else '&')+kk+' '+p['n'])
    key=(f['n'],tuple(sg))
    if key in seen: continue
    seen.add(key)
    out.setdefault(fl.split('tlapack/')[-1],[]).append('%s(%s)->%s'%(f['n'],', '.join(sg),P.base(f['ret'])['s'].replace('tlapack::','')[:20]))
for k in sorted(out):
    print(k)
    for l in out[k]: print('   ',l)
