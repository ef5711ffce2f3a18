#!/usr/bin/env python3
"""One-off generator for drivers/routines.inc (committed).  One entry function per public routine."""
import re,subprocess,sys
REALVEC={'r_vector_t','rwork_t','CL_t','CR_t'}
def split(a):
    out=[];d=0;cur=''
    for ch in a:
        if ch in '<({[': d+=1
        if ch in '>)}]': d-=1
        if ch==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out
sigs=open('/tmp/sigs_all.txt').read().splitlines()
ENUM={'side_t':'Side','uplo_t':'Uplo','op_t':'Op','trans_t':'Op','diag_t':'Diag','norm_t':'Norm','direction_t':'Direction','storage_t':'StoreV'}
out=[]; seen={}
SKIP={'trevc_protectdiv','ladiv_rc'}
for s in sigs:
    f,rest=s.split(' | ',1)
    name=rest.split(' (')[0]; args=split(rest[rest.index('(')+1:rest.rindex(')')])
    if f in('larnv.hpp',) : pass
    ps=[];bad=None
    for a in args:
        dflt=None
        if '=' in a: a,dflt=[x.strip() for x in a.split('=',1)]
        m=re.match(r'(.*?)(\w+)(\[4\])?$',a); ty,pn,arr=m.group(1).strip(),m.group(2),m.group(3)
        c='const ' if 'const' in ty else ''
        ref='&' if '&' in ty else ''
        base=ty.replace('const','').replace('&','').strip()
        def R(t): return f'{c}{t}{ref}'
        if base in ENUM: t=ENUM[base]
        elif base in ENUM.values() or base in('BandAccess','HowMny'): t=R(base) if ref else base
        elif base=='bool': t='bool'+ref
        elif base=='int' or base=='char': t=base
        elif base.startswith('size_type<') or base in('idx_t','size_t'): t=R('idx_t') if ref else 'idx_t'
        elif re.match(r'(matrix|A_t|B_t|C_t|Q_t|Z_t|T_t|X_t|S_t)',base) and not base.startswith('matrixb'):
            if name in('hessenberg_rq',) and base in('C_t','S_t'): t=R('V')
            elif name=='rot_sequence' and base in('C_t',): t=R('RV')
            elif name=='rot_sequence' and base in('S_t',): t=R('V')
            elif name=='rot_sequence3' and base in('C_t',): t=R('RM')
            else: t=R('M')
        elif base=='matrixb_t': t=R('M')
        elif base in('work_t','workspace_t'): t='M&'
        elif base=='CL_t' or base=='CR_t': t=R('RV')
        elif base=='SL_t' or base=='SR_t': t=R('V')
        elif base=='rwork_t': t='RV&'
        elif base=='r_vector_t': t='RV&'
        elif base in('piv_t','ipiv_t'): t=R('IV')
        elif base=='select_t': t=R('BV')
        elif base in('d_t',): t=R('RV')
        elif base in('e_t',): t=R('RV') if name!='pttrf' else R('V')
        elif base=='vector_colN_t': t=R('RV')
        elif re.match(r'vector',base) or base=='tau_t':
            if base=='tau_t' and name.startswith('larf'): t=R('T')
            elif name in('multishift_qr','multishift_qr_work','multishift_qr_worksize','multishift_qr_worksize_sweep','aggressive_early_deflation','aggressive_early_deflation_work','aggressive_early_deflation_worksize','lahqr','qr_iteration','qr_iteration_work','qr_iteration_worksize') or name.startswith('multishift_QR_sweep'): t=R('CV')
            else: t=R('V')
        elif base in('alpha_t','beta_t'):
            if name in('lahqz','multishift_qz','aggressive_early_deflation_generalized','multishift_QZ_sweep'):
                t=R('CV') if base=='alpha_t' else R('V')
            elif name in('her','herk') or (name=='her2k' and base=='beta_t'): t=R('R')
            else: t=R('T')
        elif base in('T',):
            t=R('T')
            if arr: pass
        elif base.startswith('complex_type<'): t=R('CT')
        elif base.startswith('real_type<') or base in('real_t','a_type','b_type','TX','TY','TZ','T1'): t=R('R')
        elif base.startswith('type_t<'): t=R('T')
        elif base.startswith('scalar_type<'): t=R('T')
        elif base.endswith('Opts') or 'Opts<' in base: t=R(base)
        elif base in('c_type',): t='R'
        elif base in('s_type',): t='T'
        elif base=='abs_f': bad=a
        else: bad=a
        if bad: break
        ps.append((t+(f' {pn}[4]' if arr else f' {pn}'),pn,t,base))
    if bad:
        print('SKIP',name,bad,file=sys.stderr); continue
    k=(name,tuple(p[2] for p in ps))
    if k in seen: continue
    seen[k]=1
    n=sum(1 for q in seen if q[0]==name)
    en=name if n==1 else f'{name}__{n}'
    call=name+('<T>' if 'worksize' in name else '')
    out.append(f'// {f}\nvoid E_{en}({", ".join(p[0] for p in ps)}) {{ {"" if False else "(void)"}{call}({", ".join(p[1] for p in ps)}); }}')
print('\n'.join(out))
