"""Discharging of verification conditions: background theory selection, z3 (API), cvc5 / second z3 as fallback."""
import z3, time, subprocess, os, tempfile, hashlib, json
from core import *
import core
import terms
from terms import consts

STATS={'queries':0,'time':0.0,'unsat':0,'by':{}}
QUICK_MS=int(os.environ.get('VP_QUICK_MS','1200')); FULL_MS=int(os.environ.get('VP_FULL_MS','10000'))
a,b,c=z3.Consts('a!s b!s c!s',Str); i,j,n=z3.Ints('i!s j!s n!s')
FA=lambda vs,f,*p: z3.ForAll(vs,f,patterns=list(p))
sext=z3.Function('sext',Str,Str,I)
sunder=z3.Function('sunder',Str,Str,B)      # a lies strictly below directory b  (a = b + '/' + ...)
AX={}
def axioms():
    if AX: return AX
    AX['slen']=[FA([a],slen(a)>=0,slen(a))]
    AX['sat']=[FA([a,i],z3.And(sat_(a,i)>=-128,sat_(a,i)<=127,z3.Implies(z3.And(i>=0,i<slen(a)),sat_(a,i)!=0),z3.Implies(z3.Or(i<0,i>=slen(a)),sat_(a,i)==0)),sat_(a,i))]
    AX['scat']=[FA([a,b],z3.And(slen(scat(a,b))==slen(a)+slen(b),stail(a,scat(a,b))==b,shead(b,scat(a,b))==a),scat(a,b)),
        FA([a,b,i],sat_(scat(a,b),i)==z3.If(i<slen(a),sat_(a,i),sat_(b,i-slen(a))),sat_(scat(a,b),i)),
        FA([a,b,c],scat(scat(a,b),c)==scat(a,scat(b,c)),scat(scat(a,b),c))]
    AX['schr']=[FA([i],z3.And(slen(schr(i))==1,sat_(schr(i),z3.IntVal(0))==i),schr(i))]
    AX['ssub']=[FA([a,i,n],z3.Implies(z3.And(i>=0,n>=0,i<=slen(a)),slen(ssub(a,i,n))==z3.If(n<slen(a)-i,n,slen(a)-i)),ssub(a,i,n)),
        FA([a,i,n],z3.Implies(z3.And(i>=0,n<=0),slen(ssub(a,i,n))==0),ssub(a,i,n)),
        FA([a,i,n],z3.Implies(i>slen(a),slen(ssub(a,i,n))==0),ssub(a,i,n)),
        FA([a,n],z3.Implies(n>=slen(a),ssub(a,z3.IntVal(0),n)==a),ssub(a,z3.IntVal(0),n)),
        FA([a,i,n,j],z3.Implies(z3.And(i>=0,j>=0,j<slen(ssub(a,i,n))),sat_(ssub(a,i,n),j)==sat_(a,i+j)),sat_(ssub(a,i,n),j))]
    AX['supd']=[FA([a,i,n],z3.Implies(z3.And(i==slen(a),n!=0),slen(supd(a,i,n))>i),supd(a,i,n)),FA([a,i,n],z3.Implies(z3.And(0<=i,i<slen(a),n!=0),slen(supd(a,i,n))==slen(a)),supd(a,i,n)),
        FA([a,i,n,j],z3.Implies(z3.And(0<=i,i<slen(a),n!=0),sat_(supd(a,i,n),j)==z3.If(i==j,n,sat_(a,j))),sat_(supd(a,i,n),j))]
    # writing over the terminator of a character array: what was there stays, what follows is unknown
    EXTRA_AX.append((('supd','scat'),[FA([a,i,n],z3.Implies(z3.And(i==slen(a),n!=0),ssub(supd(a,i,n),z3.IntVal(0),i+1)==scat(a,schr(n))),supd(a,i,n))]))
    AX['slt']=[FA([a,b],z3.And(z3.Or(slt(a,b),slt(b,a),a==b),z3.Not(z3.And(slt(a,b),slt(b,a)))),slt(a,b)),FA([a],z3.Not(slt(a,a)),slt(a,a)),
        FA([a,b,c],z3.Implies(z3.And(slt(a,b),slt(b,c)),slt(a,c)),z3.MultiPattern(slt(a,b),slt(b,c)))]
    AX['slt+scat']=[FA([a,b,c],slt(scat(c,a),scat(c,b))==slt(a,b),slt(scat(c,a),scat(c,b)))]
    AX['sunder']=[FA([a,b],z3.Implies(sunder(a,b),z3.And(slt(b,a),a!=b)),sunder(a,b)),
        FA([a,b,c],sunder(scat(c,a),scat(c,b))==sunder(a,b),sunder(scat(c,a),scat(c,b)))]
    smis=z3.Function('smis',Str,Str,I,I)
    r=sfindc(a,i,n)
    AX['sfindc']=[FA([a,i,n],z3.Implies(n>=0,z3.Or(r==NPOS,z3.And(n<=r,r<slen(a),sat_(a,r)==i))),r),
        FA([a,i,n,j],z3.Implies(z3.And(n>=0,n<=j,j<slen(a),z3.Or(r==NPOS,j<r)),sat_(a,j)!=i),z3.MultiPattern(r,sat_(a,j)))]
    r2=srfindc(a,i)
    AX['srfindc']=[FA([a,i],z3.Or(r2==NPOS,z3.And(0<=r2,r2<slen(a),sat_(a,r2)==i)),r2),
        FA([a,i,j],z3.Implies(z3.And(0<=j,j<slen(a),z3.Or(r2==NPOS,j>r2)),sat_(a,j)!=i),z3.MultiPattern(r2,sat_(a,j)))]
    r3=sfind(a,b,n)
    AX['sfind']=[FA([a,b,n],z3.Or(r3==NPOS,z3.And(n<=r3,r3+slen(b)<=slen(a),ssub(a,r3,slen(b))==b)),r3),
        FA([a,b,n,i],z3.Implies(z3.And(r3==NPOS,n<=i,i+slen(b)<=slen(a)),z3.And(0<=smis(a,b,i),smis(a,b,i)<slen(b),sat_(a,i+smis(a,b,i))!=sat_(b,smis(a,b,i)))),z3.MultiPattern(r3,sat_(a,i)))]
    AX['sctrim']=[]
    AX['sext']=[]
    return AX
NEEDS={'scat':('slen','stail','shead'),'ssub':('slen',),'sat':('slen',),'schr':('slen','sat'),'sfindc':('slen','sat'),'srfindc':('slen','sat'),'sfind':('slen','ssub','sat'),'supd':('slen','sat'),'sunder':('slt',),'sctrim':('slen',)}

def collect(hyps,goal):
    """hypotheses, definitional facts and background axioms reachable from the goal and the path"""
    from ex import DEFFACT
    fs=list(hyps); seen=set(); todo=set()
    for f in fs+[goal]: todo|=consts(f)
    while todo:
        nm=todo.pop()
        if nm in seen: continue
        seen.add(nm)
        for d in DEFFACT.get(nm,()):
            fs.append(d); todo|=consts(d)-seen
    # de-duplicate
    u={}; 
    for f in fs: u.setdefault(f.get_id(),f)
    fs=list(u.values())
    return fs,seen
EXTRA_AX=[]     # (trigger symbol names, formula) added by specifications
def background(fs,goal,names):
    ax=axioms(); need=set(); out=[]
    todo=[x for x in ax if x in names]
    if names&{n for n in names if n.startswith('lit')} or 'sat' in names or 'slen' in names: pass
    while todo:
        x=todo.pop()
        if x in need: continue
        need.add(x)
        for y in NEEDS.get(x,()):
            if y in ax: todo.append(y)
    for x in need: out+=ax[x]
    if 'scat' in need and 'slt' in need: out+=ax['slt+scat']
    done=set()
    again=True
    while again:
        again=False
        for k,(trig,f) in enumerate(EXTRA_AX):
            if k in done: continue
            if all(t in names for t in trig):
                done.add(k); again=True
                for g in (f if isinstance(f,list) else [f]):
                    out.append(g); names=names|consts(g)
    for x in list(ax):
        if x in names and x not in need: 
            need.add(x); out+=ax[x]
    # literals
    ls=[(s,t) for s,t in core._lits.items() if t.decl().name() in names]
    chars='sat' in need or 'schr' in need
    if ('scat' in need or chars) : 
        pass
    for s,t in ls:
        out.append(slen(t)==len(s))
        if len(s)==1 and 'schr' in need and ord(s)<128: out.append(schr(z3.IntVal(ord(s)))==t)
        if chars and len(s)<=40:
            for k,ch in enumerate(s): out.append(sat_(t,z3.IntVal(k))==(ord(ch) if ord(ch)<128 else ord(ch)-256))
    if len(ls)>1: out.append(z3.Distinct(*[t for _,t in ls]))
    if 'NULLSTR' in names: out+=[NULLSTR!=t for _,t in ls]
    if 'slt' in need:
        sl=sorted(ls)
        for (s1,t1),(s2,t2) in zip(sl,sl[1:]): out.append(slt(t1,t2))
        if '' in core._lits and lit('').decl().name() in names: out.append(FA([a],z3.Or(a==lit(''),slt(lit(''),a)),slt(lit(''),a)))
    if ('slen' in need or 'slen' in names) and '' in core._lits and lit('').decl().name() in names:
        out.append(FA([a],z3.Implies(slen(a)==0,a==lit('')),slen(a)))
    # containers
    for nm in names:
        if nm.startswith('vhas_'):
            h=[f for f in terms._vh.values() if f.name()==nm]
            if h:
                h=h[0]; vs=h.domain(0); v=z3.Const('v!v',vs); x=z3.Const('x!v',h.domain(1)); k=z3.Int('k!v')
                ln=vs.accessor(0,0); ar=vs.accessor(0,1)
                out.append(z3.ForAll([v,x],h(v,x)==z3.Exists([k],z3.And(0<=k,k<ln(v),z3.Select(ar(v),k)==x)),patterns=[h(v,x)]))
                out.append(z3.ForAll([v,k],z3.Implies(z3.And(0<=k,k<ln(v)),h(v,z3.Select(ar(v),k))),patterns=[z3.Select(ar(v),k)]))
        if nm.startswith('card_') and nm in core._card:
            f=core._card[nm]; s_=f.domain(0); x=z3.Const('x!c',s_.domain()); S=z3.Const('S!c',s_); S2=z3.Const('S2!c',s_)
            out+=[z3.ForAll([S],f(S)>=0,patterns=[f(S)]),f(z3.K(s_.domain(),FALSE))==0,
              z3.ForAll([S,x],z3.Implies(z3.And(f(S)==0),z3.Not(z3.Select(S,x))),patterns=[z3.MultiPattern(f(S),z3.Select(S,x))]),
              z3.ForAll([S,x],f(z3.Store(S,x,TRUE))==f(S)+z3.If(z3.Select(S,x),0,1),patterns=[f(z3.Store(S,x,TRUE))]),
              z3.ForAll([S,x],f(z3.Store(S,x,FALSE))==f(S)-z3.If(z3.Select(S,x),1,0),patterns=[f(z3.Store(S,x,FALSE))])]
            w=z3.Function('wit_'+nm,s_,s_.domain())
            out.append(z3.ForAll([S],z3.Or(f(S)==0,z3.Select(S,w(S))),patterns=[f(S)]))
    # string extensionality for equalities of the goal
    eqs=str_eqs(goal)
    if eqs and ('sat' in names or 'ssub' in names or 'supd' in names):
        for p,q in eqs[:40]:
            e=sext(p,q)
            out.append(z3.Or(p==q,slen(p)!=slen(q),z3.And(0<=e,e<slen(p),sat_(p,e)!=sat_(q,e))))
        if 'sat' not in need: out+=ax['sat']
        if 'slen' not in need: out+=ax['slen']
        if 'ssub' in names and 'ssub' not in need: out+=ax['ssub']
    return out
def str_eqs(t):
    out=[]; seen=set(); st=[t]
    while st:
        u=st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u): continue
        if z3.is_eq(u) and u.arg(0).sort()==Str: out.append((u.arg(0),u.arg(1)))
        st+=u.children()
    return out
def skolem_goal(g):
    """negated goal with outer universal quantifiers replaced by fresh constants, so ground terms are visible"""
    hy=[]
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            vs=[fresh('sk',g.var_sort(k)) for k in range(g.num_vars())]
            g=z3.substitute_vars(g.body(),*reversed(vs)); continue
        if z3.is_implies(g): hy.append(g.arg(0)); g=g.arg(1); continue
        break
    return hy,g
def build(hyps,goal):
    hy,g=skolem_goal(goal)
    hyps=list(hyps)+hy
    fs,names=collect(hyps,g)
    names=set(names)
    for f in fs: names|=consts(f)
    bg=background(fs,g,names)
    return fs,bg,g
def _solver(ms,seed=0):
    s=z3.Solver(); s.set('timeout',ms); s.set('auto_config',False); s.set('smt.mbqi',False); s.set('random_seed',seed)
    s.set('smt.qi.eager_threshold',30.0)
    return s
_cache={}
def prove(hyps,goal,quick=False,ms=None):
    if is_t(goal) or any(is_f(h) for h in hyps): return True
    for h in hyps:
        if h.eq(goal): return True
    if is_f(goal) and quick and not hyps: return False
    STATS['queries']+=1; t0=time.time()
    if z3.is_and(goal) and not quick:
        return all(prove(hyps,x,quick,ms) for x in goal.children())
    if z3.is_eq(goal) and goal.arg(0).sort()==B and not quick and (z3.is_quantifier(goal.arg(0)) or z3.is_quantifier(goal.arg(1))):
        return prove(hyps,z3.Implies(goal.arg(0),goal.arg(1)),quick,ms) and prove(hyps,z3.Implies(goal.arg(1),goal.arg(0)),quick,ms)
    fs,bg,g=build(hyps,goal)
    r=None; by=None; full=ms or FULL_MS
    stages=[('api',QUICK_MS,i) for i in ((0,7,13) if quick=='hint' else (0,))] if quick and not ms else [('api',min(QUICK_MS,full),0),('port',full,0)]+([] if quick else [('api',full,7)])
    for kind_,m,seed in stages:
        if kind_=='port':
            w=portfolio(fs+bg+[z3.Not(g)],m)
            if w: r=z3.unsat; by=w; break
            continue
        s=_solver(m,seed)
        s.add(*fs); s.add(*bg); s.add(z3.Not(g))
        r=s.check()
        if r==z3.unsat: by='z3 %s'%z3.get_version_string(); break
        if r==z3.sat: break
    STATS['time']+=time.time()-t0
    if r==z3.unsat:
        STATS['unsat']+=1; STATS['by'][by]=STATS['by'].get(by,0)+1
        return True
    return False
def dump(hyps,goal):
    fs,bg,g=build(hyps,goal); open('/tmp/dump.smt2','w').write(smt2(fs+bg+[z3.Not(g)]))
def smt2(fs):
    s=z3.Solver(); s.add(*fs); return s.to_smt2()
def portfolio(fs,ms):
    """the other back ends, side by side: name of the first one that refutes"""
    try:
        txt='(set-logic ALL)\n'+smt2(fs)
        with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as t: t.write(txt)
        cmds=[('z3 4.8.12',['/usr/bin/z3' if os.path.exists('/usr/bin/z3') else 'z3','smt.mbqi=false','auto_config=false','-T:%d'%max(1,ms//1000),t.name])]
        if '(lambda' not in txt: cmds.append(('cvc5',['cvc5','--tlimit=%d'%ms,t.name]))
        ps=[(n,subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)) for n,c in cmds]
        end=time.time()+ms/1000+3; won=None
        while ps and time.time()<end and not won:
            for n,p in list(ps):
                if p.poll() is not None:
                    ps.remove((n,p))
                    if p.stdout.read().strip().startswith('unsat'): won=n; break
            else: time.sleep(0.005)
        for n,p in ps: p.kill(); p.wait()
        os.unlink(t.name)
        return won
    except OSError: return None
def satisfiable(hyps,ms=3000):
    """reachability cover: True unless the hypotheses are refuted"""
    fs,bg,_=build(hyps,FALSE)
    s=_solver(ms); s.add(*fs); s.add(*bg)
    return s.check()!=z3.unsat
def model(hyps,goal,ms=4000):
    fs,bg,g=build(hyps,goal); s=_solver(ms); s.add(*fs); s.add(*bg); s.add(z3.Not(g))
    r=s.check()
    try: return str(r),s.model() if r!=z3.unsat else None
    except z3.Z3Exception: return str(r),None
