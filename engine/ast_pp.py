"""Pretty printer for exported functions (debug aid)."""
import json,sys
class PP:
    def __init__(s,d): s.d=d; s.names={}
    def ty(s,t): return s.d['types'][t]['s'] if t is not None else '?'
    def e(s,x):
        if x is None: return ''
        k=x['k']
        if k=='c': return str(x['v'])+('' if 'n' not in x else '/*%s*/'%x['n'])
        if k=='f': return x['v']
        if k=='s': return repr(x.get('v'))
        if k=='ref': return x['n']
        if k=='fn': return '&'+s.d['fns'][x['f']]['n']
        if k=='this': return 'this'
        if k=='un': return ('(%s%s)'%(s.e(x['e']),x['op'])) if x.get('post') else '(%s%s)'%(x['op'],s.e(x['e']))
        if k=='bin': return '(%s %s %s)'%(s.e(x['a']),x['op'],s.e(x['b']))
        if k=='cond': return '(%s ? %s : %s)'%(s.e(x['c']),s.e(x['a']),s.e(x['b']))
        if k=='idx': return '%s[%s]'%(s.e(x['b']),s.e(x['i']))
        if k=='mem': return '%s.%s'%(s.e(x['b']),x['f'])
        if k=='call':
            f=s.d['fns'][x['f']]['n'] if 'f' in x else s.e(x.get('callee'))
            return '%s(%s)'%(f,', '.join(s.e(a) for a in x['a']))
        if k=='ctor': return '%s{%s}'%(s.ty(x['t']),', '.join(s.e(a) for a in x['a']))
        if k=='copy': return 'copy(%s)'%s.e(x['e'])
        if k=='cast': return '%s<%s>(%s)'%(x['ck'],s.ty(x['t']),s.e(x['e']))
        if k=='list': return '{%s}'%', '.join(s.e(a) for a in x['a'])
        if k=='lambda': return 'lambda#%d'%x['id']
        if k=='throw': return 'throw(%s)'%s.e(x.get('e'))
        return '<%s %s>'%(k,x.get('cls',''))
    def st(s,x,ind=0):
        if x is None: return
        p='  '*ind; k=x['k']
        if k=='block':
            for b in x['b']: s.st(b,ind)
        elif k=='decl':
            for v in x['v']: print(p+'%s %s = %s;%s'%(s.ty(v.get('t')),v.get('n') or [b.get('n') for b in v.get('decomp',[])] if isinstance(v.get('decomp'),list) else v.get('n'),s.e(v.get('init')),'' ))
        elif k=='if':
            print(p+'if (%s) {'%s.e(x['c'])); s.st(x['t'],ind+1)
            if x.get('f'): print(p+'} else {'); s.st(x['f'],ind+1)
            print(p+'}')
        elif k=='for':
            print(p+'for('); s.st(x['init'],ind+2); print(p+'  ;%s;%s) {'%(s.e(x['c']),s.e(x['inc']))); s.st(x['b'],ind+1); print(p+'}')
        elif k in('while','do'):
            print(p+'%s(%s) {'%(k,s.e(x['c']))); s.st(x['b'],ind+1); print(p+'}')
        elif k=='ret': print(p+'return %s;'%s.e(x.get('e')))
        elif k=='expr': print(p+s.e(x['e'])+';')
        else: print(p+k, {a:b for a,b in x.items() if a not in('b',)} if k not in('switch','try') else '')
        if k in('switch','try','rangefor','case','default') and x.get('b'): s.st(x['b'],ind+1)
    def fn(s,f):
        print('%s %s(%s) // %s:%d #%d'%(s.ty(f['ret']),f['name'],', '.join(s.ty(p['t'])+' '+p['n'] for p in f['params']),s.d['files'][f['file']],f['line'],f['id']))
        for i in f.get('inits',[]): print('   init',i.get('f'),s.e(i['e']))
        if f.get('body'): s.st(f['body'],1)
if __name__=='__main__':
    d=json.load(open(sys.argv[1])); pp=PP(d)
    for n in sys.argv[2:]:
        for f in d['fns']:
            if f and f['n']==n: pp.fn(f)
