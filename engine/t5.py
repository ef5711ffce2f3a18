import sys
sys.path.insert(0,'/verif/engine')
from runner import *
P=Prog('/verif/build/%s.json'%sys.argv[1])
seen=set()
for f in P.fns:
    if not f or not f.get("root") or f.get("body") is None or (f.get("rec") is not None and f.get("m")): continue
    fl=P.file(f)
    if "/tlapack/lapack/" not in fl: continue
    L=SP.letters(P,f)
    k=(fl,f['line'],L)
    if k in seen: continue
    seen.add(k)
    sp=SP.find(P,f)
    if sp: continue
    print(fl.split('/lapack/')[1][:-4],f['n'],L,' '.join(p['n'] for p in f['params']),'->',P.base(f['ret']).get('name') or P.base(f['ret'])['k'])
