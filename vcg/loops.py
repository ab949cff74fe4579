"""Loop invariants: derived from the loop body's own effect, then filtered (Houdini) by proof.
Every surviving invariant is recorded as two obligations (initially / preserved)."""
import z3, time
from core import *
import core
from ex import *
import ex as X
import terms
from terms import consts, inline_defs, exists, forall, sel, vhas_t, gen_fn, subst_all
import solve

class Cursor:
    def __init__(s,kind,leaf,key,key0,head,C=None,lt=None,step=None):
        s.kind=kind; s.leaf=leaf; s.key=key; s.key0=key0; s.head=head; s.C=C; s.lt=lt
class ENode:
    """existential over the visited keys: E(args) := exists k visited. Phi(k,args)"""
    def __init__(s,args,phi_cur,kv,phi_gen,cur,last=None):
        s.args=args; s.phi_cur=phi_cur; s.kv=kv; s.phi=phi_gen; s.cur=cur; s.last=last   # last=(W_cur, W_gen)
        s.fn=gen_fn('e',[a.sort() for a in args]); s.name=s.fn.name()
    def at(s,args,phi):
        return z3.substitute(phi,*[(a,b) for a,b in zip(s.args,args)]) if args else phi
    def head(s,*args): return s.fn(*args)
    def step(s,*args):
        a=s.at(args,s.phi_cur); e=s.fn(*args)
        if s.last is not None: e=And(e,Not(s.at(args,s.last[0])))
        return Or(e,a)
    def full(s,vis,*args):
        body=And(vis(s.kv),s.at(args,s.phi))
        if s.last is not None:
            k2=z3.Const('k2!l',s.kv.sort())
            body=And(body,z3.ForAll([k2],Implies(And(vis(k2),s.last[2](k2,s.kv)),Not(z3.substitute(s.at(args,s.last[1]),(s.kv,k2))))))
        return exists(s.kv,body)
class Cand:
    def __init__(s,name,F,enodes=(),leaf=None,kindc='',defn=None): s.name=name; s.F=F; s.en=list(enodes); s.leaf=leaf; s.kindc=kindc; s.defn=defn; s.alive=True
def E_false(en): return lambda *a: FALSE

def leaves(v,path=()):
    if isinstance(v,Obj):
        for k in v.f: yield from leaves(v.f[k],path+(('o',k),))
    elif isinstance(v,Stream):
        for k in v.f: yield from leaves(v.f[k],path+(('s',k),))
    else: yield path,v
def getleaf(v,path):
    for k,n in path:
        if not isinstance(v,(Obj,Stream)) or n not in v.f: return None
        v=v.f[n]
    return v
def setleaf(v,path,new):
    if not path: return new
    k,n=path[0]; f=dict(v.f); f[n]=setleaf(f[n],path[1:],new)
    return Obj(v.ty,f) if isinstance(v,Obj) else Stream(v.kind,f)
def get(st,lf):
    if lf[0]=='g': return T(st.ghost[lf[1]],'ghost') if lf[1] in st.ghost else None
    return getleaf(st.store.get(lf[1]),lf[2]) if lf[1] in st.store else None
def put(st,lf,v):
    if lf[0]=='g': st.ghost[lf[1]]=v.t
    else: st.store[lf[1]]=setleaf(st.store[lf[1]],lf[2],v)
def changed(h,b):
    out=set()
    for r,v in h.store.items():
        if r not in b.store: continue
        w=b.store[r]
        if v is w: continue
        for p,x in leaves(v):
            y=getleaf(w,p)
            if y is None: out.add(('l',r,p)); continue
            if isinstance(x,Raw) and isinstance(y,(Obj,)): continue
            if not same(x,y): out.add(('l',r,p))
    for g in set(h.ghost)|set(b.ghost):
        x=h.ghost.get(g); y=b.ghost.get(g)
        if x is None: x=ghost0(g,y.sort())
        if y is None: y=x
        if not x.eq(y): out.add(('g',g))
    return out
def lname(lf):
    if lf[0]=='g': return 'g_'+lf[1]
    n='_'.join(str(x[1]).split('::')[-1] for x in lf[2]); r=lf[1]
    return (str(r[1]) if isinstance(r,tuple) else str(r)).replace(':','_')+('_'+n if n else '')
def havoc(ex,h,mods):
    for lf in sorted(mods,key=str):
        v=get(h,lf)
        if v is None:
            if lf[0]=='g': continue
            raise Unsupported('havoc missing leaf')
        if isinstance(v,T):
            if lf[0]=='g': put(h,lf,T(fresh('h_'+lname(lf),v.t.sort()),'ghost')); continue
            n=T(fresh('h_'+lname(lf),v.t.sort()),v.ty); ex.assume_range(h,n); put(h,lf,n)
        elif isinstance(v,It):
            if v.kind=='key':
                C=v.snap if not isinstance(v.snap,str) and v.snap is not None else ex.contset(h,v.clv,v.cty)
                V=fresh('V',v.V.sort()); cur=fresh('cur',v.cur.sort()); end=fresh('end',B)
                x=z3.Const('x!b',cur.sort())
                h.assume(z3.ForAll([x],z3.Implies(z3.Select(V,x),Select(C,x))),*ex.it_facts(C,V,cur,end,v.rev))
                put(h,lf,v.cp(V=V,cur=cur,end=end,snap=C))
            else:
                p=fresh('pos',I); h.assume(p>=0,p<=ex.seqlen(h,v)); n=v.cp(pos=p); put(h,lf,n)
        elif isinstance(v,Raw): put(h,lf,Raw(v.ty))
        elif isinstance(v,Ptr):
            put(h,lf,Ptr(v.lv,v.ty,fresh('null',B) if v.lv is not None else TRUE))
        else: raise Unsupported('loop modifies %r'%v)

def run(ex,node,st,it):
    line=node.get('l',0); tag='%s:%d'%(ex.where(),line)
    ex.loopn.append(tag)
    ex.loopcount=getattr(ex,'loopcount',0)+1
    # ghosts that the body may create lazily must exist in the pre-state: handled through ghost0
    # --- modified locations
    mods=set()
    for rnd in range(12):
        h=st.cp()
        havoc(ex,h,mods)
        c0=ex.loopcount
        ex.dry+=1; ex.nomods=getattr(ex,'nomods',0)+1; ex.thr.append([]); sv=ex.exits; ex.exits=[]
        try: exs,back,o=it(h.cp())     # a copy: what the condition itself changes must count as modified
        finally: ex.dry-=1; ex.nomods-=1; ex.thr.pop(); ex.exits=sv
        nested=ex.loopcount>c0
        new=set()
        for b in back: new|=changed(h,b)
        for lf in new:      # ghost absent from pre-state
            if lf[0]=='g' and lf[1] not in st.ghost:
                for b in back:
                    if lf[1] in b.ghost: st.ghost[lf[1]]=ghost0(lf[1],b.ghost[lf[1]].sort())
        if new<=mods: break
        mods|=new
    else: raise Unsupported('modified set does not stabilise')
    if ex.nomods:           # called from a modified-set computation: no inference needed
        res=Out(); res.r=o.r; res.n=try_merge([x for x in exs+o.b if not x.dead()])
        return res
    return infer(ex,node,st,it,mods,nested,tag)

def infer(ex,node,st,it,mods,nested,tag):
    h=st.cp(); npre=len(st.pc)
    havoc(ex,h,mods)
    inv=fresh('inv',B); h.assume(inv)
    invname=inv.decl().name()
    nhead=len(h.pc)
    DEFFACT[invname]=[]
    heads={}; inits={}
    for lf in mods:
        a=get(h,lf); b=get(st,lf); heads[lf]=a; inits[lf]=b
    allc=[]; names=set()
    hint=ex.hints if callable(ex.hints) else ex.hints.get(ex.where())
    rounds=2 if nested else 1
    pre=optimistic(ex,st,h,it,mods,inv,invname,tag,hint) if nested and hint and ex.opts.get('optimistic') else []
    rnd=-1
    while rnd+1<rounds:
        rnd+=1
        last=rnd==rounds-1
        mk=mark()
        h1=h.cp()
        if not last:
            ex.dry+=1; ex.thr.append([]); sv=ex.exits; ex.exits=[]
            try: exs,back,o=it(h1)
            finally: ex.dry-=1; ex.thr.pop(); ex.exits=sv
        else: exs,back,o=it(h1)
        back=[b for b in back if not b.dead()]
        mb=None
        if back:
            ms=try_merge(back)
            if len(ms)==1: mb=ms[0]
        cur=find_cursor(ex,st,h,mods,back,heads,inits)
        cands=[]
        if mb is not None and (ex.noauto!=('',) or node.get('k')=='Alg'): cands=derive(ex,st,h,mb,mods,heads,inits,cur,mk,nhead,tag)
        cands+=snap_cands(ex,h,mods,heads,{c.name for c in allc})
        if hint: cands+=[Cand(n,F,kindc='hint') for n,F in hint(ex,st,h,mods) if n not in {c.name for c in allc}|{c.name for c in pre}]
        if rnd==0 and pre: DEFFACT[invname]=[]; cands=pre+cands       # proved again, with the others
        houdini(ex,st,h,ms if back else [],cands,allc,inv,invname,mods,tag,names)
        if rnd==0 and pre and not all(c.alive for c in pre): pre=[]; DEFFACT[invname]=[]; rnd=-1; continue   # the loops inside were analysed under an assumption that fell: start again without
        surv=[c for c in cands if c.alive]
        if not ex.dry:
            for c in surv:
                if c.kindc=='trivial': continue
                gi=c.F({l:leafterm(st,l) for l in mods},'init')
                ex.obls.append(X.Obl('loop %s: invariant %s holds initially'%(tag,c.name),list(st.pc),gi,ex.where(),node.get('l',0),'inv-init'))
                for b in ms:
                    gs=c.F({l:leafterm(b,l) for l in mods},'step')
                    ex.obls.append(X.Obl('loop %s: invariant %s preserved'%(tag,c.name),list(b.pc),gs,ex.where(),node.get('l',0),'inv-step'))
        allc+=surv
    ex.loop_stats[tag]=(len(allc),[c.name for c in allc])
    # ---- exits
    res=Out(); res.r=o.r
    outs=[]
    for x in exs:
        if x.dead(): continue
        if node.get('k')=='Do' and hint:      # the body ran before this exit: what it preserves holds here too (proved where it does)
            for c in allc:
                if c.kindc!='hint': continue
                try: g=c.F({l:leafterm(x,l) for l in mods},'step')
                except (TypeError,z3.Z3Exception): continue
                if not solve.prove(x.pc,g,quick=True): continue
                if not ex.dry: ex.obls.append(X.Obl('loop %s: invariant %s at the exit'%(tag,c.name),list(x.pc),g,ex.where(),node.get('l',0),'inv-exit'))
                x.assume(g)
        outs.append(finish(ex,st,h,x,allc,cur,mods,heads,npre,nhead,inv))
    for x in o.b:
        if not x.dead(): outs.append(x)
    res.n=try_merge(outs)
    return res

def optimistic(ex,st,h,it,mods,inv,invname,tag,hint):
    """hints that are preserved when the loops inside are analysed under the assumption that the hints hold (a set proved together: plain induction)"""
    cs=[Cand(n,F,kindc='hint') for n,F in hint(ex,st,h,mods)]; iv={l:leafterm(st,l) for l in mods}; hv={l:leafterm(h,l) for l in mods}; ms_=ex.opts.get('hint_ms')
    def holds(pc,c,v,w):
        try: g=c.F(v,w); ok=not z3.is_false(g) and solve.prove(pc,g,quick=True,ms=ms_)
        except (z3.Z3Exception,TypeError): ok=False
        if DBG and not ok: print('  drop-opt-%s'%w,tag,c.name,flush=True)
        return ok
    cs=[c for c in cs if holds(st.pc,c,iv,'init')]
    for rnd in range(4):
        DEFFACT[invname]=[Implies(inv,c.F(hv,'head')) for c in cs]
        ex.dry+=1; ex.thr.append([]); sv=ex.exits; ex.exits=[]
        try: exs,back,o=it(h.cp())
        finally: ex.dry-=1; ex.thr.pop(); ex.exits=sv
        back=[b for b in back if not b.dead()]
        bs=try_merge(back) if back else []
        keep=[c for c in cs if all(holds(b.pc,c,{l:leafterm(b,l) for l in mods},'step') for b in bs)]
        if len(keep)==len(cs): return cs
        cs=keep
    DEFFACT[invname]=[]; return []
def leafterm(st,lf):
    v=get(st,lf)
    if isinstance(v,T): return v.t
    if isinstance(v,It): return v.pos if v.kind=='idx' else v.V
    return None

def snap_cands(ex,h,mods,heads,have):
    """a container that is changed while it is iterated: what is still to come is as it was when the iteration began"""
    out=[]
    for lf in sorted(mods,key=str):
        i=heads[lf]
        if not(isinstance(i,It) and i.kind=='key' and i.snap is not None and not isinstance(i.snap,str)): continue
        try: C=ex.contset(h,i.clv,i.cty)
        except Unsupported: continue
        for l2 in mods:
            a=heads[l2]
            if not isinstance(a,T): continue
            ct=(lambda t,ty=a.ty: mdom(t,ty)) if kind(a.ty)=='map' and kind(i.cty)=='map' else (lambda t: t)
            if not ct(a.t).eq(C): continue
            n='%s: the keys to come of %s are untouched'%(lname(lf),lname(l2))
            if n in have: continue
            def F(v,m,lf=lf,l2=l2,ct=ct,snap=i.snap):
                k=z3.Const('k!snap',snap.sort().domain()); c=ct(v[l2]); V=v[lf]
                if c.eq(snap): return TRUE
                return FAC(k,snap,z3.Implies(z3.Not(Select(V,k)),Select(c,k)==Select(snap,k)),*[z3.Select(l,k) for l in X.leaves_of(c)])
            out.append(Cand(n,F,kindc='hint'))
    return out
def find_cursor(ex,st,h,mods,back,heads,inits):
    keyc=[]; idxc=[]; intc=[]
    for lf in sorted(mods,key=str):
        a=heads[lf]
        vs=[get(b,lf) for b in back]
        if isinstance(a,It):
            if not all(isinstance(v,It) for v in vs): continue
            if a.kind=='key':
                if all(v.V.eq(z3.Store(a.V,a.cur,TRUE)) for v in vs):
                    keyc.append(Cursor('key',lf,a.cur,None,a,C=a.snap,lt=order(a.cur.sort(),a.rev)))
            elif all(z3.simplify(v.pos-a.pos).eq(z3.IntVal(1)) for v in vs):
                idxc.append(Cursor('idx',lf,a.pos,inits[lf].pos,a,lt=lambda p,q:p<q))
        elif isinstance(a,T) and a.t.sort()==I and lf[0]!='x':
            if vs and all(isinstance(v,T) and z3.simplify(v.t-a.t).eq(z3.IntVal(1)) for v in vs):
                intc.append(Cursor('idx',lf,a.t,inits[lf].t,a,lt=lambda p,q:p<q))
    # prefer real iteration cursors
    intc.sort(key=lambda c:(0 if (c.leaf[0]=='g' or (len(c.leaf)>2 and c.leaf[2] and c.leaf[2][-1][0]=='s')) else 1))
    all_=keyc+idxc+intc
    if not all_: return None
    c=all_[0]; c.others=all_[1:]
    return c
def vis_head(c):
    if c is None: return None
    if c.kind=='key': return lambda k: z3.Select(c.head.V,k)
    return lambda k: z3.And(c.key0<=k,k<c.key)

def derive(ex,st,h,mb,mods,heads,inits,cur,mk,nhead,tag):
    cands=[]
    M={}      # head const name -> (head term, init term)
    cursorleaf={cur.leaf} if cur else set()
    for lf in mods:
        a=heads[lf]
        if isinstance(a,T) and lf not in cursorleaf: M[a.t.decl().name()]=(a.t,inits[lf].t)
        elif isinstance(a,It) and lf not in cursorleaf and a.kind=='idx': M[a.pos.decl().name()]=(a.pos,inits[lf].pos)
    rel={}
    if cur is not None and cur.kind=='idx':
        for oc in cur.others:
            if oc.kind=='idx': rel[oc.key.decl().name()]=oc
    pre_sub=[]
    for n,(a,b) in M.items():
        if cur is not None and n in rel: pre_sub.append((a,b+(cur.key-cur.key0)))
        else: pre_sub.append((a,b))
    def add(name,F,en=(),leaf=None,kc='',defn=None): cands.append(Cand(name,F,en,leaf,kc,defn))
    # ---------- integer relations
    for lf in sorted(mods,key=str):
        a=heads[lf]
        if isinstance(a,T) and a.t.sort()==I or isinstance(a,It) and a.kind=='idx':
            i0=inits[lf].t if isinstance(a,T) else inits[lf].pos
            if lf in cursorleaf or (cur is None):
                add('%s>=init'%lname(lf),lambda v,m,lf=lf,i0=i0: v[lf]>=i0)
                if cur is None: add('%s<=init'%lname(lf),lambda v,m,lf=lf,i0=i0: v[lf]<=i0)
                else: cands[-1].kindc=''
            elif cur is not None and cur.kind=='idx' and any(oc.leaf==lf for oc in cur.others):
                add('%s tracks cursor'%lname(lf),lambda v,m,lf=lf,i0=i0: v[lf]-i0==v[cur.leaf]-cur.key0)
            else:
                add('%s>=init'%lname(lf),lambda v,m,lf=lf,i0=i0: v[lf]>=i0)
                add('%s<=init'%lname(lf),lambda v,m,lf=lf,i0=i0: v[lf]<=i0)
            # bounds from guards in the back edge's path
            ht=a.t if isinstance(a,T) else a.pos
            seen=set()
            for lit_ in mb.pc[nhead:]:
                for (x,y,strict) in bound_of(lit_,ht):
                    if consts(y)&(set(M)|{ht.decl().name()}): continue
                    if any(SERIAL.get(c,0)>mk for c in consts(y)): continue
                    k=str(y)
                    if (x,k) in seen: continue
                    seen.add((x,k))
                    if x=='<': add('%s bounded above'%lname(lf),lambda v,m,lf=lf,y=y: v[lf]<=y)
                    else: add('%s bounded below'%lname(lf),lambda v,m,lf=lf,y=y: v[lf]>=y)
    if isinstance(mb,St):
        for lf in sorted(mods,key=str):
            a=heads[lf]
            if isinstance(a,T) and kind(a.ty)=='vec' and lf[0]=='l':
                i0=inits[lf]
                add('%s length grows'%lname(lf),lambda v,m,lf=lf,i0=i0,ty=a.ty: vlen(v[lf],ty)>=vlen(i0.t,ty))
    if cur is None:
        # no cursor: only frame-like candidates
        for lf in sorted(mods,key=str):
            a=heads[lf]
            if isinstance(a,T) and a.t.sort()==B:
                add('%s unchanged-true'%lname(lf),lambda v,m,lf=lf: v[lf]); add('%s unchanged-false'%lname(lf),lambda v,m,lf=lf: Not(v[lf]))
                i0=inits[lf].t
            if isinstance(a,T) and z3.is_array(a.t) and a.t.sort().range()==B:
                i0=inits[lf].t; x=z3.Const('x!m',a.t.sort().domain())
                add('%s only grows'%lname(lf),lambda v,m,i0=i0,lf=lf,x=x: z3.ForAll([x],Implies(sel(i0,x),sel(v[lf],x))))
                add('%s only shrinks'%lname(lf),lambda v,m,i0=i0,lf=lf,x=x: z3.ForAll([x],Implies(sel(v[lf],x),sel(i0,x))))
        return cands
    vis=vis_head(cur)
    kv=fresh('k',cur.key.sort())
    gmap={}
    headnames=set(M)
    def gen(phi,hist,keep=()):
        """generalise phi (over the current key and body-fresh symbols) to an arbitrary visited key kv"""
        return terms.generalise(phi,mk,cur.key,kv,gmap,headnames if hist else set(),exclude=cursor_names(cur),keep=keep)
    def mkE(args,phi,hist=False,last=None):
        ks={a.decl().name() for a in args}
        pg=gen(phi,hist,ks)
        lw=None
        if last is not None: lw=(last,gen(last,hist,ks),cur.lt)
        n=ENode(args,phi,kv,pg,cur.key,lw)
        ds=[Eq_b(n.fn(*args),n.full(vis,*args))] 
        f=z3.ForAll(args,n.fn(*args)==n.full(vis,*args),patterns=[n.fn(*args)]) if args else (n.fn()==n.full(vis))
        DEFFACT[n.name]=[f]
        return n
    def variants(*phis):
        """substitution variants removing the modified heads: [(tag, phis)]"""
        used=set()
        for p in phis: used|=consts(p)&headnames
        if not used: return [('',phis,False)]
        pre=tuple(z3.simplify(z3.substitute(p,*pre_sub)) for p in phis)
        out=[('pre',pre,False)]
        out.append(('hist',phis,True))
        return out
    # helper evaluating E in the different modes
    def EV(n,mode,*args):
        if mode=='init': return FALSE
        if mode=='head': return n.head(*args)
        if mode=='step': return n.step(*args)
        return n.full(mode,*args)          # mode is a visibility function (exit)
    defs_mk=mk
    # ---------- facts of every completed iteration
    suffix=mb.pc[nhead:]
    flat=[]
    for f in suffix:
        flat+= list(f.children()) if z3.is_and(f) else [f]
    np=0
    for f in flat:
        f=inline_defs(f,defs_mk)
        if is_t(f) or too_big(f): continue
        cs=consts(f)
        if not (cur.key.decl().name() in cs or any(SERIAL.get(c,0)>mk for c in cs)): continue
        if cursor_names(cur)&cs: continue
        for vt,(g,),hist in variants(f):
            if vt=='hist' or (vt=='pre' and '@P' in (ex.noauto(mods) if callable(ex.noauto) else ex.noauto)): continue
            n=mkE([],Not(g),hist)
            add('P%d%s'%(np,vt),lambda v,m,n=n: Not(EV(n,m)),[n])
        np+=1
    # ---------- pointwise summaries
    for lf in sorted(mods,key=str):
        a=heads[lf]
        if lf in cursorleaf or not isinstance(a,T): continue
        if any(w in lname(lf) for w in (ex.noauto(mods) if callable(ex.noauto) else ex.noauto)): continue
        b=get(mb,lf)
        if b is None or not isinstance(b,T) or b.t.sort()!=a.t.sort(): continue
        i0=inits[lf]
        k=kind(a.ty) if lf[0]=='l' else ('set' if z3.is_array(a.t) and a.t.sort().range()==B else ('arr' if z3.is_array(a.t) else ('bool' if a.t.sort()==B else 'scalar')))
        if k=='set' or k=='bool' or (k=='rec'and False):
            if k=='set':
                x=fresh('x',a.t.sort().domain()); args=[x]
                at=lambda t,xs: sel(t,*xs)
                hx=z3.Select(a.t,x); bx=sel(b.t,x); i0f=i0.t
            else:
                args=[]; at=lambda t,xs: t; hx=a.t; bx=b.t; i0f=i0.t
            pointwise(ex,add,lf,args,at,hx,bx,i0f,a,mkE,EV,variants,mk,cur,lname(lf))
        if k=='bool': scalar(ex,add,lf,a,b,i0,mkE,EV,variants,mk,cur)
        elif k=='map':
            ty=a.ty; x=fresh('x',sort(ptype(ty)[1][0]))
            at=lambda t,xs,ty=ty: sel(mdom(t,ty),*xs)
            pointwise(ex,add,lf,[x],at,z3.Select(mdom(a.t,ty),x),sel(mdom(b.t,ty),x),i0.t,a,mkE,EV,variants,mk,cur,lname(lf)+'.dom',part='dom')
            y=fresh('x',sort(ptype(ty)[1][0]))
            valwise(ex,add,lf,y,lambda t,ty=ty,y=y: sel(mval(t,ty),y),a,b,i0,mkE,EV,variants,mk,cur,lname(lf)+'.val')
        elif k=='arr':
            y=fresh('x',a.t.sort().domain())
            valwise(ex,add,lf,y,lambda t,y=y: sel(t,y),a,b,i0,mkE,EV,variants,mk,cur,lname(lf))
        elif k=='vec':
            ty=a.ty; x=fresh('x',sort(ptype(ty)[1][0])); vh=terms.vhas(a.t.sort())
            at=lambda t,xs,ty=ty: vhas_t(t,xs[0],ty)
            pointwise(ex,add,lf,[x],at,vh(a.t,x),vhas_t(b.t,x,ty),i0.t,a,mkE,EV,variants,mk,cur,lname(lf)+'.elems',part='vec')
        elif k in('int','str','scalar','opaque','pair','rec','cstr','float'):
            scalar(ex,add,lf,a,b,i0,mkE,EV,variants,mk,cur)
    return cands
def Eq_b(a,b): return a==b
def cursor_names(c):
    if c is None: return set()
    s=set()
    if c.kind=='key': s={c.head.V.decl().name(),c.head.end.decl().name()}
    return s
def too_big(f,lim=400):
    n=[0]; seen=set()
    def go(t):
        if t.get_id() in seen or n[0]>lim: return
        seen.add(t.get_id()); n[0]+=1
        for c in t.children(): go(c)
    go(f); return n[0]>lim
def bound_of(l,ht):
    neg=False
    if z3.is_not(l): neg=True; l=l.arg(0)
    out=[]
    if z3.is_app(l) and l.num_args()==2:
        a,b=l.arg(0),l.arg(1); d=l.decl().kind()
        K=z3
        if a.eq(ht) or b.eq(ht):
            sw=b.eq(ht); y=a if sw else b
            if d in(K.Z3_OP_LT,K.Z3_OP_LE):
                up=(not sw)!=neg
                out.append(('<' if up else '>',y,True))
            elif d in(K.Z3_OP_GT,K.Z3_OP_GE):
                up=sw!=neg
                out.append(('<' if up else '>',y,True))
            elif d==K.Z3_OP_EQ and neg and y.sort()==I: out.append(('<',y,True)); out.append(('>',y,True))
    return out

def pointwise(ex,add,lf,args,at,hx,bx,i0f,a,mkE,EV,variants,mk,cur,name,part=None):
    bx=inline_defs(bx,mk)
    p=fresh('p',B)
    # occurrences of the head at this point -> p ; at other points keep
    bp=terms.replace_point(bx,hx,p,args)
    b1=z3.simplify(z3.substitute(bp,(p,TRUE))); b0=z3.simplify(z3.substitute(bp,(p,FALSE)))
    K=z3.simplify(Not(b1)); A=terms.under_eq(b0)
    K=terms.under_eq(K)
    if too_big(K) or too_big(A): return
    for vt,(K_,A_),hist in variants(K,A):
        ek=mkE(args,K_,hist) if not is_f(K_) else None
        ea=mkE(args,A_,hist) if not is_f(A_) else None
        def rhs(m,xs,ek=ek,ea=ea):
            r=at(i0f,xs)
            if ek is not None: r=And(r,Not(EV(ek,m,*xs)))
            if ea is not None: r=Or(r,EV(ea,m,*xs))
            return r
        def lhs(v,xs): return at(v[lf],xs)
        ens=[e for e in(ek,ea) if e is not None]
        def q(body,v,m):
            if not args: return body
            pat=None
            return z3.ForAll(args,body)
        d=(args,rhs,part,lf)
        add('%s<=%s'%(name,vt),lambda v,m,rhs=rhs: q(Implies(lhs(v,args),rhs(m,args)),v,m),ens,lf,'pw<',d)
        add('%s>=%s'%(name,vt),lambda v,m,rhs=rhs: q(Implies(rhs(m,args),lhs(v,args)),v,m),ens,lf,'pw>',d)
        if ek is not None and ea is not None:
            # re-added after removal: last writer
            pass
def split_write(b,h):
    """b as an ite tree over 'unchanged' (== h) leaves: -> (W, f) or None"""
    if b.eq(h): return FALSE,None
    if z3.is_app_of(b,z3.Z3_OP_ITE):
        c,x,y=b.children()
        w1=split_write(x,h); w2=split_write(y,h)
        if w1 is None or w2 is None: return None
        W=Ite(c,w1[0],w2[0])
        if w1[1] is None: f=w2[1]
        elif w2[1] is None: f=w1[1]
        else: f=Ite(c,w1[1],w2[1])
        return W,f
    return TRUE,b
def valwise(ex,add,lf,x,at,a,b,i0,mkE,EV,variants,mk,cur,name):
    hx=at(a.t); bx=at(b.t); ix=at(i0.t)
    bx=inline_defs(bx,mk) if bx.sort()==B else inline_defs(bx,mk)
    ws=split_write(bx,hx)
    if ws is None or ws[1] is None: return
    W,f=ws
    hn=hx
    if too_big(W) or too_big(f,800): return
    v_=fresh('v',hx.sort())
    for vt,(W_,f_),hist in variants(W,f):
        ew=mkE([x],W_,hist); ef=mkE([x,v_],And(W_,v_==f_),hist)
        def F(v,m,ew=ew,ef=ef):
            val=at(v[lf])
            return z3.ForAll([x],And(Implies(Not(EV(ew,m,x)),val==ix),Implies(EV(ew,m,x),EV(ef,m,x,val))))
        add('%s=%s'%(name,vt),F,[ew,ef],lf,'val')
def scalar(ex,add,lf,a,b,i0,mkE,EV,variants,mk,cur):
    bt=inline_defs(b.t,mk); ws=split_write(bt,a.t)
    if ws is None or ws[1] is None: return
    W,f=ws
    if a.t.decl().name() in consts(f) and a.t.sort()!=B: return
    if too_big(W) or too_big(f): return
    v_=fresh('v',a.t.sort())
    for vt,(W_,f_),hist in variants(W,f):
        ew=mkE([],W_,hist); ef=mkE([v_],And(W_,v_==f_),hist)
        def F(v,m,ew=ew,ef=ef):
            return And(Implies(Not(EV(ew,m)),Eq(v[lf],i0.t)),Implies(EV(ew,m),EV(ef,m,v[lf])))
        add('%s scalar%s'%(lname(lf),vt),F,[ew,ef],lf,'scalar')
        if cur is not None and cur.lt is not None and not hist:
            el=mkE([v_],And(W_,v_==f_),hist,last=W_)
            def G(v,m,ew=ew,el=el):
                return Implies(EV(ew,m),EV(el,m,v[lf]))
            add('%s last%s'%(lname(lf),vt),G,[ew,el],lf,'scalar')

import os
HINT_MS=6000
DBG=os.environ.get('HDBG')
def houdini(ex,st,h,backs,cands,prev,inv,invname,mods,tag,names):
    t0=time.time()
    iv={l:leafterm(st,l) for l in mods}
    hv={l:leafterm(h,l) for l in mods}
    base=list(DEFFACT[invname])
    for c in cands:
        if not c.alive: continue
        try: g=c.F(iv,'init')
        except (z3.Z3Exception,TypeError) as e:
            c.alive=False
            if DBG: print('  drop-exc',tag,c.name,flush=True)
            continue
        if not solve.prove(st.pc,g,quick='hint' if c.kindc=='hint' else True,ms=ex.opts.get('hint_ms') if c.kindc=='hint' else None):
            c.alive=False
            if DBG: print('  drop-init',tag,c.name,flush=True)
            if os.environ.get('HDMP','@@') in c.name and os.environ.get('HDTAG','') in tag: solve.dump(st.pc,g); print('GOAL',g); [print('  H',f) for f in st.pc[-40:]]; print('FULL',solve.prove(st.pc,g)); os._exit(0)
    while True:
        alive=[c for c in cands if c.alive]
        DEFFACT[invname]=base+[Implies(inv,c.F(hv,'head')) for c in alive]
        drop=False
        for b in backs:
            bv={l:leafterm(b,l) for l in mods}
            for c in alive:
                if not c.alive: continue
                g=c.F(bv,'step')
                if z3.is_false(g) or not solve.prove(b.pc,g,quick='hint' if c.kindc=='hint' else True,ms=ex.opts.get('hint_ms') if c.kindc=='hint' else None):
                    c.alive=False; drop=True
                    if DBG: print('  drop-step',tag,c.name,flush=True)
                    if os.environ.get('HDMP','@@') in c.name and os.environ.get('HDTAG','') in tag: solve.dump(b.pc,g); print('GOAL',g); [print('  H',f) for f in b.pc[-40:]]; print('FULL',solve.prove(b.pc,g)); os._exit(0)
        if not drop: break
    # drop weaker historical variants when the exact one survived both ways
    have=set((c.name) for c in cands if c.alive)
    for c in cands:
        if c.alive and c.name.endswith('hist'):
            base_=c.name[:-4]
            if base_+'pre' in have: c.alive=False
    DEFFACT[invname]=base+[Implies(inv,c.F(hv,'head')) for c in cands if c.alive]

def finish(ex,st,h,x,allc,cur,mods,heads,npre,nhead,inv):
    """state after a regular loop exit"""
    full=False
    if cur is not None and cur.kind=='key':
        e=cur.head.end
        full=any(f.eq(e) for f in x.pc[nhead:])
    if full:
        C=cur.C; vis=lambda k: Select(C,k)
    elif cur is not None: vis=vis_head(cur)
    else: vis=None
    hv={}
    sub=[]
    n=x.cp(); n.pc=x.pc[:npre]
    # new constants for the values at exit
    pw={}
    for c in allc:
        if c.defn is not None and c.kindc in('pw<','pw>'): pw.setdefault((c.leaf,c.name[:-4] if c.name.endswith('hist') else c.name.replace('<=','').replace('>=','')),{})[c.kindc]=c
    for lf in mods:
        a=heads[lf]
        if isinstance(a,T):
            e=fresh('x_'+lname(lf),a.t.sort()); sub.append((a.t,e)); hv[lf]=e
        elif isinstance(a,It):
            hv[lf]=a.pos if a.kind=='idx' else a.V
    suffix=[f for f in x.pc[npre:] if not f.eq(inv)]
    for f in suffix: n.assume(z3.substitute(f,*sub) if sub else f)
    hv2=dict(hv)
    for c in allc:
        if vis is None and c.en: continue
        m=vis if c.en else 'exit'
        try: f=c.F(hv2,m)
        except TypeError: continue
        f=z3.substitute(f,*sub) if sub else f
        n.assume(f)
    # definitions for later derivations
    for (lf,nm),d in pw.items():
        if 'pw<' in d and 'pw>' in d:
            args,rhs,part,_=d['pw<'].defn
            e=hv[lf]
            def df(*xs,rhs=rhs,args=args):
                r=rhs(vis,list(xs)) if xs or not args else None
                return z3.substitute(r,*sub) if sub else r
            terms.DEFS[(e.decl().name(),part)]=df
    for r,v in list(n.store.items()): n.store[r]=subv(v,sub)
    for g,v in list(n.ghost.items()): n.ghost[g]=z3.substitute(v,*sub) if sub else v
    return n
def subv(v,sub):
    if not sub: return v
    if isinstance(v,T): return T(z3.substitute(v.t,*sub),v.ty,v.bv)
    if isinstance(v,Obj): return Obj(v.ty,{k:subv(x,sub) for k,x in v.f.items()})
    if isinstance(v,Stream): return Stream(v.kind,{k:subv(x,sub) for k,x in v.f.items()})
    if isinstance(v,It): return v.cp(**{k:(z3.substitute(getattr(v,k),*sub) if getattr(v,k) is not None else None) for k in('V','cur','pos','end')})
    if isinstance(v,Ptr) and v.null is not None: return Ptr(v.lv,v.ty,z3.substitute(v.null,*sub))
    if isinstance(v,LV): return LV(v.root,tuple((p[0],z3.substitute(p[1],*sub))+tuple(p[2:]) if p[0] in('mv','vi','ch','off') else p for p in v.path),v.ty)
    if isinstance(v,Pv): return Pv(subv(v.a,sub),subv(v.b,sub),v.ty)
    if isinstance(v,Raw): return Raw(v.ty,z3.substitute(v.t,*sub))
    return v
