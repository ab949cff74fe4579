#!/usr/bin/env python3-vt
"""tools/dbg.py <Cxx|sig> [substr]: verify verbosely in one process; on failure dump obligation"""
import sys,os,time; V='/verif'; sys.path[:0]=[V+'/vcg',V]; sys.dont_write_bytecode=True; sys.setrecursionlimit(20000)
import prog,contracts,spec,solve
P=prog.Program(); prog.build_astx(); P.load(*sorted(f for f in os.listdir(prog.SRC) if f.endswith('.cxx') and f not in('webcards.cxx','webrepo.cxx','mysql.cxx')))
a=sys.argv[1]; cons=contracts.PROPS.get(a) or [contracts.C[k] for k in contracts.C if a in k]
CS=contracts.contracts_for(os.environ.get('PROP',a)); cons=cons if a in contracts.PROPS else [CS[k] for k in CS if a in k]
if a in contracts.PROPS and os.environ.get('ALL'): cons=cons+list(contracts.OVER.get(a,{}).values())
sub=sys.argv[2] if len(sys.argv)>2 else None
for c in cons:
    t=time.time(); R=(__import__('cProfile').runctx('R=spec.verify(P,c,CS,discharge=False)',globals(),globals(),'/tmp/prof') or R) if os.environ.get('PROF') else spec.verify(P,c,CS,discharge=False)
    print('##',c.sig,'gen %.1f'%(time.time()-t),len(R.gen.obls) if getattr(R,'gen',None) else 0,'error',R.error,'used',R.used,'inlined',sorted(R.inlined)[:30])
    for ob in (R.gen.obls if getattr(R,'gen',None) else ()):
        if sub and sub not in ob.name: continue
        t1=time.time(); ok=solve.prove(ob.hyps,ob.goal)
        print('ok  ' if ok else 'FAIL',ob.kind,ob.name,ob.line,'%.2f'%(time.time()-t1),flush=True)
        if not ok and os.environ.get('DUMP'):
            print('   goal',str(ob.goal)[:2500]); print('   hyps',len(ob.hyps)); 
            for h in ob.hyps: print('     ',str(h)[:700])
    ex_=getattr(R,'exits',[]); print('exits',len(ex_),'sat',[solve.satisfiable(a.pc,1500) for a in ex_[:5]])
