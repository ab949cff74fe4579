#!/usr/bin/env python3-vt
"""check.py <property>: decides one property of /repo's current tree.

1. the functions the property depends on are extracted mechanically from /repo/src (clang AST), their contracts
   (contracts/*.py) turned into obligations and discharged by z3 / cvc5, function by function;
2. the assumed contracts of the outside world are exercised, and failing obligations are turned into failing inputs,
   by the property's replay battery (replay/<id>.cc), which runs the real compiled code.
Exit 0: every obligation discharged and no failing input; exit 1 with a VIOLATION line otherwise."""
import sys, os, time, json, hashlib, subprocess, multiprocessing, select, signal, tempfile, shutil, traceback, re
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[HERE+'/vcg',HERE]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode=True
TIER=os.environ.get('VERIF_TIER','quick'); SEED=int(os.environ.get('VERIF_SEED','1') or 1)
T0=time.time()
PROOF_BUDGET=float(os.environ.get('VP_PROOF_BUDGET','300' if TIER=='quick' else '2400'))
JOBS=int(os.environ.get('VP_JOBS',str(min(8,os.cpu_count() or 4))))
BUILD=os.environ.get('VP_BUILD',HERE+'/build')

def say(*a):
    if os.environ.get('VP_VERBOSE'): print('#%6.1fs'%(time.time()-T0),*a,flush=True)

# ------------------------------------------------------------------ proof part
def worker(obls,idx,n,sem,flag,deadline,w):
    import solve
    rec=lambda d: os.write(w,(json.dumps(d)+'\n').encode()[:4000])
    for k,ob in enumerate(obls):
        if k%n!=idx: continue
        with sem:
            t=time.time()
            if t>deadline: rec({'o':k,'ok':False,'s':0,'late':1}); continue
            try: ok=solve.prove(ob.hyps,ob.goal,quick=False,ms=(1500 if flag.value else None))
            except Exception as e: ok=False
            if not ok: flag.value=1
            rec({'o':k,'ok':bool(ok),'s':round(time.time()-t,3)})
    rec({'by':solve.STATS['by'],'q':solve.STATS['queries']})
def function_job(P,con,contracts,sem,flag,deadline,w,key):
    import spec, solve
    rec=lambda d: os.write(w,(json.dumps(dict(d,key=key))+'\n').encode()[:60000])
    signal.signal(signal.SIGTERM,signal.SIG_DFL)
    with sem:
        try: R=spec.verify(P,con,contracts,discharge=False)
        except RecursionError as e: R=spec.Result(con.sig); R.error='verifier error: recursion'
        except Exception as e:
            R=spec.Result(con.sig); R.error='verifier error: %s'%''.join(traceback.format_exception_only(type(e),e)).strip()
            if os.environ.get('VP_VERBOSE'): traceback.print_exc()
    obls=R.gen.obls if getattr(R,'gen',None) else []
    rec({'used':sorted(R.used)})
    rec({'gen':len(obls),'error':R.error,'inlined':sorted(R.inlined),'assumptions':sorted(R.assumptions)})
    rd,wr=os.pipe(); n=min(JOBS,max(1,len(obls)//3)); kids=[]
    for i in range(n):
        p=os.fork()
        if p==0:
            os.close(rd)
            try: worker(obls,i,n,sem,flag,deadline,wr)
            finally: os._exit(0)
        kids.append(p)
    os.close(wr); buf=b''; done={}; by={}
    while True:
        d=os.read(rd,65536)
        if not d: break
        buf+=d
        while b'\n' in buf:
            l,buf=buf.split(b'\n',1); m=json.loads(l)
            if 'o' in m: done[m['o']]=m
            else:
                for k,v in m['by'].items(): by[k]=by.get(k,0)+v
    for p in kids: os.waitpid(p,0)
    fails=[]; names=[]
    for k,ob in enumerate(obls):
        m=done.get(k); names.append(ob.name)
        if m is None or not m['ok']: fails.append({'obligation':ob.name,'kind':ob.kind,'function':str(ob.fn),'line':ob.line,'index':k,'late':bool(m and m.get('late'))})
    vac=False
    if not R.error and not fails:
        ex_=getattr(R,'exits',[])
        with sem: vac=bool(ex_) and not any(solve.satisfiable(a.pc,1500) for a in ex_[:12])
    out=[]
    for f in fails[:3]:
        ob=obls[f['index']]
        with sem:
            try:
                r,m=solve.model(ob.hyps,ob.goal,1500); f['solver']=r
                f['candidate_model']=str(m)[:3000] if m is not None else ''
                f['goal']=str(ob.goal)[:1500]
            except Exception as e: f['solver']='error %s'%e
    rec({'done':1,'n':len(obls),'ok':sum(1 for m in done.values() if m['ok']),'fails':fails[:12],'nfail':len(fails),'by':by,'secs':round(sum(m['s'] for m in done.values()),2),'vacuous':vac,
         'kinds':{k:sum(1 for o in obls if o.kind==k) for k in sorted({o.kind for o in obls})},
         'posts':sorted({o.name for o in obls if o.kind in('post','xpost','effect','loop')})[:60],'loops':{str(k):str(v)[:200] for k,v in (R.loops or {}).items()} if isinstance(getattr(R,'loops',None),dict) else str(getattr(R,'loops',''))[:200]})

BAT={'buf':b'','eof':False,'fd':None}
def poll_battery():
    if BAT['eof'] or BAT['fd'] is None: return False
    if not select.select([BAT['fd']],[],[],0)[0]: return False
    d=os.read(BAT['fd'],1<<20)
    if d: BAT['buf']+=d; return False
    BAT['eof']=True
    try: return bool(json.loads(BAT['buf'].decode()).get('fails'))
    except ValueError: return False
def prove_property(pid):
    import prog, contracts
    P=prog.Program(); prog.build_astx()
    P.load(*sorted(f for f in os.listdir(prog.SRC) if f.endswith('.cxx') and f not in SKIP_TU))
    say('loaded')
    C,roots=contracts.contracts_for(pid),contracts.PROPS.get(pid,[])
    sem=multiprocessing.Semaphore(JOBS); flag=multiprocessing.Value('i',0); deadline=T0+PROOF_BUDGET
    res={}; procs={}; queue=[]; seen=set()
    def push(con,how):
        key='%s#%s'%(con.sig,'root' if how=='root' else ''); same=0
        while how=='root' and key in seen: same+=1; key='%s#root%d'%(con.sig,same)      # one function, several contracts to prove
        if key in seen or (how!='root' and con.sig+'#root' in seen and any(r is con for r in roots)): return
        seen.add(key); queue.append((key,con))
    for c in roots: push(c,'root')
    trusted={}
    import solve
    for f in contracts.LATE: f()
    ex0=list(solve.EXTRA_AX)
    for nm,hy,goal in contracts.LEMMAS.get(pid,()):
        solve.EXTRA_AX[:]=[]; t=time.time(); ok=any(solve.prove(hy,goal,ms=m) for m in (4000,))
        solve.EXTRA_AX[:]=ex0
        res['lemma '+nm]={'sig':'lemma '+nm,'done':1,'n':1,'ok':int(ok),'fails':[] if ok else [{'obligation':nm,'kind':'lemma'}],'secs':round(time.time()-t,2),'by':{},'kinds':{'lemma':1},'posts':[nm],'inlined':[]}
    while queue or procs:
        while queue:
            key,con=queue.pop(0); rd,wr=os.pipe()
            p=os.fork()
            if p==0:
                os.close(rd)
                try: function_job(P,con,C,sem,flag,deadline,wr,key)
                finally: os._exit(0)
            os.close(wr); procs[rd]=(p,key,b''); res[key]={'sig':con.sig}
        r,_,_=select.select(list(procs),[],[],1.0)
        for fd in r:
            p,key,buf=procs[fd]; d=os.read(fd,65536)
            if not d:
                os.close(fd); os.waitpid(p,0); del procs[fd]; say('finished',key,res[key].get('ok'),'/',res[key].get('n'),res[key].get('error'),'solver',res[key].get('secs'))
                continue
            buf+=d
            while b'\n' in buf:
                l,buf=buf.split(b'\n',1); m=json.loads(l); m.pop('key',None); res[key].update(m)
                for s in m.get('used',()):
                    c=C.get(s)
                    if c is None: continue
                    if c.trusted: trusted[s]=c.trusted
                    else: push(c,'dep')
            procs[fd]=(p,key,buf)
        if poll_battery(): flag.value=1; deadline=min(deadline,time.time()+45)
        if time.time()>deadline+15:
            for p,_,_ in procs.values():
                try: os.kill(p,signal.SIGKILL)
                except OSError: pass
            break
    return res,trusted
SKIP_TU={'webcards.cxx','webrepo.cxx','mysql.cxx'}

# ------------------------------------------------------------------ replay battery
MAINS={'cards.cxx','tools.cxx','webcards.cxx','webrepo.cxx','mysql.cxx'}
def build_battery(pid):
    import battery
    return battery.build(pid,MAINS)

def main():
    args=[a for a in sys.argv[1:] if not a.startswith('-')]
    pid=args[0]
    rp,wp=os.pipe()
    kid=os.fork()
    if kid==0:                     # the battery is built and run next to the proof
        os.close(rp)
        try:
            import battery
            r=battery.run(pid,MAINS,SEED,TIER)
        except Exception as e: r={'status':'unavailable','why':''.join(traceback.format_exception_only(type(e),e))[-1500:]}
        with os.fdopen(wp,'w') as f: json.dump(r,f)
        os._exit(0)
    os.close(wp)
    err=None; res={}; trusted={}; BAT['fd']=rp
    try: res,trusted=prove_property(pid)
    except Exception as e:
        err='the sources could not be analysed: '+''.join(traceback.format_exception_only(type(e),e)).strip()[-3000:]
        if os.environ.get('VP_VERBOSE'): traceback.print_exc()
    say('proof part done')
    while not BAT['eof']:
        d=os.read(rp,1<<20); BAT['buf']+=d; BAT['eof']=not d
    txt=BAT['buf'].decode()
    os.waitpid(kid,0)
    bat=json.loads(txt) if txt.strip() else {'status':'unavailable','why':'no answer'}
    say('battery',bat.get('status'),bat.get('cases'),str(bat.get('why',''))[-1500:])
    # verdict
    nob=sum(r.get('n',0) or 0 for r in res.values()); nok=sum(r.get('ok',0) or 0 for r in res.values())
    bad=[]
    for r in res.values():
        if r.get('error'): bad.append({'function':r['sig'],'problem':r['error']})
        elif 'done' not in r: bad.append({'function':r['sig'],'problem':'verifier gave no answer'})
        if r.get('vacuous'): bad.append({'function':r['sig'],'problem':'no execution satisfies the contract\'s hypotheses (vacuous)'})
        for f in r.get('fails',()): bad.append(dict(f,function=r['sig']))
    if err: bad.append({'problem':err})
    import contracts
    known=[l.strip() for l in open(HERE+'/known_findings.txt')] if os.path.exists(HERE+'/known_findings.txt') else []
    kf=[]; fails=[]
    for f in bat.get('fails',()):
        hit=[l for l in known if l.startswith('known: property=%s '%pid) and ('key='+f.get('key','?')+' ') in l+' ']
        if hit: kf.append((f,hit[0]))
        else: fails.append(f)
    seenk=set()
    for f,l in kf:
        if l in seenk: continue
        seenk.add(l); print('KNOWN-FINDING: property=%s %s'%(pid,l.split(' ',2)[2]))
    violation=bool(bad or fails)
    by={}
    for r in res.values():
        for k,v in (r.get('by') or {}).items(): by[k]=by.get(k,0)+v
    funcs=[{'function':r['sig'],'obligations':r.get('n'),'discharged':r.get('ok'),'by_kind':r.get('kinds'),'solver_s':r.get('secs'),'stated':r.get('posts'),'executed_inline':r.get('inlined')} for r in res.values()]
    ass=sorted({a for r in res.values() for a in r.get('assumptions',())}|set(contracts.GENERAL_ASSUMPTIONS)|{'assumed contract of %s: %s'%(k,v) for k,v in trusted.items()}|set(contracts.NOTES.get(pid,())))
    ev={'property':pid,'tier':TIER,'seed':SEED,'level':'proof' if res else 'exploration','wall_s':round(time.time()-T0,2),'violations':len(bad)+len(fails),
        'coverage':{'obligations':nob,'discharged':nok,'checker_cmd':'python3-vt check.py %s'%pid,
          'trusted_base':['z3 and cvc5','vcg/ (extraction with clang 18, symbolic execution, contracts of the C/C++/POSIX/libarchive libraries)']+['assumed contract: '+k for k in sorted(trusted)],
          'functions_under_contract':funcs,'discharged_by':by,'solver_seconds':round(sum(r.get('secs',0) or 0 for r in res.values()),2),
          'battery':{k:v for k,v in bat.items() if k!='fails'}},
        'assumptions':ass}
    if bat.get('cases') is not None: ev['coverage'].update({'evaluations':bat['cases'],'distinct_nontrivial':bat.get('nontrivial',0),'rule':bat.get('rule',''),'samples':bat.get('samples',[])})
    os.makedirs(HERE+'/evidence',exist_ok=True)
    json.dump(ev,open(HERE+'/evidence/%s.json'%pid,'w'),indent=1)
    print('%s: %d/%d obligations discharged in %d functions, battery %s (%s cases), %.1f s'%(pid,nok,nob,len(res),bat.get('status'),bat.get('cases'),time.time()-T0))
    if violation:
        os.makedirs(HERE+'/evidence/replay',exist_ok=True)
        rp=HERE+'/evidence/replay/%s.json'%pid
        json.dump({'property':pid,'failed_obligations':bad,'failing_inputs':fails[:20],'how_to_replay':bat.get('how','')},open(rp,'w'),indent=1)
        for b in bad[:6]: print('  obligation:',b.get('function',''),'|',b.get('obligation',b.get('problem')),'| line',b.get('line'))
        for f in fails[:4]: print('  failing input:',json.dumps(f)[:600])
        print('VIOLATION property=%s replay=%s%s'%(pid,rp,'' if fails else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)
if __name__=='__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('VIOLATION property=%s replay=%s no-failing-input-found'%(sys.argv[1],HERE+'/check.py')); sys.exit(1)
