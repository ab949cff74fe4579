"""Term utilities: symbol collection, pointwise expansion, quantifier construction."""
import z3
from core import *
import core
DEFS={}       # (const name, part) -> fn(*xs) -> formula ; part None|'dom'|'vec'
_cm={}
def consts(t):
    """names of uninterpreted constants and functions occurring in t"""
    k=t.get_id(); r=_cm.get(k)
    if r is not None and r[0].eq(t): return r[1]
    stack=[(t,False)]
    while stack:
        u,done=stack.pop(); uid=u.get_id(); r=_cm.get(uid)
        if r is not None and r[0].eq(u): continue
        if z3.is_quantifier(u): ch=[u.body()]
        else: ch=u.children()
        if not done:
            stack.append((u,True))
            for c in ch: stack.append((c,False))
        else:
            s=set()
            for c in ch: s|=_cm[c.get_id()][1]
            if z3.is_app(u) and u.decl().kind()==z3.Z3_OP_UNINTERPRETED: s=s|{u.decl().name()}
            _cm[uid]=(u,frozenset(s))
    return _cm[k][1]
def gen_fn(base,sorts):
    core._n[0]+=1; nm='%s!%d'%(base,core._n[0]); SERIAL[nm]=core._n[0]
    f=z3.Function(nm,*(list(sorts)+[B]))
    return f
def subst_all(t,subs): return z3.substitute(t,*subs) if subs else t

_vh={}
def vhas(vs):
    """membership predicate of a vector sort"""
    n=vs.name()
    if n not in _vh: _vh[n]=z3.Function('vhas_'+n,vs,vs.accessor(0,1).range().range(),B)
    return _vh[n]
def veq(a,b): return a.eq(b)
def vhas_t(v,x,ty):
    s=v.sort()
    if z3.is_app_of(v,z3.Z3_OP_ITE): return Ite(v.arg(0),vhas_t(v.arg(1),x,ty),vhas_t(v.arg(2),x,ty))
    if v.decl().eq(s.constructor(0)):
        n,a=v.arg(0),v.arg(1)
        if isint(n) and n.as_long()==0: return FALSE
        if z3.is_store(a):
            i=a.arg(1)
            if z3.simplify(n-i).eq(z3.IntVal(1)):
                n2=z3.simplify(n-1); r=a.arg(0)
                # eta: mkvec(len v, arr v) = v
                inner=mk_eta(s,n2,r)
                return Or(Eq(x,a.arg(2)),vhas_t(inner,x,ty))
    if z3.is_const(v) and (v.decl().name(),'vec') in DEFS: return DEFS[(v.decl().name(),'vec')](x)
    return vhas(s)(v,x)
def mk_eta(s,n,a):
    if a.num_args()==1 and a.decl().eq(s.accessor(0,1)) :
        base=a.arg(0)
        if z3.simplify(n-s.accessor(0,0)(base)).eq(z3.IntVal(0)): return base
    return s.constructor(0)(n,a)
def sel(a,x):
    """membership / value of array a at x with every definition expanded"""
    if z3.is_store(a):
        k=a.arg(1)
        if k.eq(x): return a.arg(2)
        c=Eq(k,x)
        if is_f(c): return sel(a.arg(0),x)
        return Ite(c,a.arg(2),sel(a.arg(0),x))
    if z3.is_app_of(a,z3.Z3_OP_ITE): return Ite(a.arg(0),sel(a.arg(1),x),sel(a.arg(2),x))
    if z3.is_K(a): return a.arg(0)
    if z3.is_const(a) and (a.decl().name(),None) in DEFS: return DEFS[(a.decl().name(),None)](x)
    if z3.is_app(a) and a.num_args()==1 and z3.is_const(a.arg(0)) and (a.arg(0).decl().name(),'dom') in DEFS and a.decl().name().startswith('dom_'):
        return DEFS[(a.arg(0).decl().name(),'dom')](x)
    return z3.Select(a,x)

def rewrite(t,f,memo=None):
    """bottom-up rewriting; f(term with rewritten children) -> replacement or None.  Descends into quantifiers."""
    if memo is None: memo={}
    k=t.get_id()
    if k in memo: return memo[k][1]
    if z3.is_quantifier(t):
        vs=[z3.FreshConst(t.var_sort(i),'q') for i in range(t.num_vars())]
        body=z3.substitute_vars(t.body(),*reversed(vs))
        nb=rewrite(body,f,memo)
        if nb.eq(body): r=t
        elif t.is_lambda(): r=z3.Lambda(vs,nb)
        else: r=z3.ForAll(vs,nb) if t.is_forall() else z3.Exists(vs,nb)
    elif t.num_args()==0:
        r=f(t)
        if r is None: r=t
    else:
        ch=[rewrite(c,f,memo) for c in t.children()]
        u=t if all(a.eq(b) for a,b in zip(ch,t.children())) else rebuild(t,ch)
        r=f(u)
        if r is None: r=u
    memo[k]=(t,r)
    return r
def rebuild(t,ch):
    d=t.decl().kind()
    if d==z3.Z3_OP_AND: return And(*ch)
    if d==z3.Z3_OP_OR: return Or(*ch)
    if d==z3.Z3_OP_NOT: return Not(ch[0])
    if d==z3.Z3_OP_ITE: return Ite(*ch)
    if d==z3.Z3_OP_SELECT: return Select(*ch)
    return t.decl()(*ch)
def inline_defs(t,mk=None):
    def f(u):
        if z3.is_select(u):
            a=u.arg(0)
            if has_def(a): return inline_defs(sel(a,u.arg(1)),mk)
        if z3.is_const(u) and u.sort()==B and (u.decl().name(),None) in DEFS: return inline_defs(DEFS[(u.decl().name(),None)](),mk)
        if z3.is_app(u) and u.num_args()==2 and u.decl().name().startswith('vhas_') and z3.is_const(u.arg(0)) and (u.arg(0).decl().name(),'vec') in DEFS:
            return inline_defs(DEFS[(u.arg(0).decl().name(),'vec')](u.arg(1)),mk)
        return None
    if not relevant(t): return t
    return rewrite(t,f)
def relevant(t):
    cs=consts(t)
    return any((c,p) in DEFS for c in cs for p in(None,'dom','vec'))
def has_def(a):
    if z3.is_const(a): return (a.decl().name(),None) in DEFS
    if z3.is_store(a): return has_def(a.arg(0))
    if z3.is_app_of(a,z3.Z3_OP_ITE): return has_def(a.arg(1)) or has_def(a.arg(2))
    if z3.is_app(a) and a.num_args()==1 and z3.is_const(a.arg(0)) and a.decl().name().startswith('dom_'): return (a.arg(0).decl().name(),'dom') in DEFS
    return False
def replace_point(t,hx,p,args):
    """replace head-at-the-point by p; head at another point y by ite(y==x,p,head[y])"""
    if not args:
        return z3.substitute(t,(hx,p))
    d=hx.decl(); base=hx.arg(0); x=args[0]
    def f(u):
        if u.eq(hx): return p
        if z3.is_app(u) and u.num_args()==2 and u.decl().eq(d) and u.arg(0).eq(base):
            c=Eq(u.arg(1),x)
            if is_f(c): return None
            return Ite(c,p,u)
        return None
    return rewrite(t,f)
def under_eq(t):
    r"""in a conjunction a==b /\ R, with a,b constants, simplify R under the equality"""
    if z3.is_or(t): return Or(*[under_eq(c) for c in t.children()])
    if not z3.is_and(t): return t
    cs=list(t.children())
    for i,c in enumerate(cs):
        if z3.is_eq(c) and z3.is_const(c.arg(0)) and z3.is_const(c.arg(1)) and c.arg(0).sort()!=B:
            a,b=c.arg(0),c.arg(1)
            rest=[z3.simplify(z3.substitute(z3.substitute(o,(a,b)),)) if False else z3.simplify(z3.substitute(o,(a,b))) for j,o in enumerate(cs) if j!=i]
            return And(c,*rest)
    return t
def flat_and(t):
    if z3.is_and(t):
        r=[]
        for c in t.children(): r+=flat_and(c)
        return r
    return [t]
def exists(kv,body):
    if is_f(body) or is_t(body): return body
    if kv.decl().name() not in consts(body): return body
    if z3.is_or(body): return Or(*[exists(kv,c) for c in body.children()])
    cs=flat_and(body)
    for i,c in enumerate(cs):
        if z3.is_eq(c):
            a,b=c.arg(0),c.arg(1)
            for u,v in((a,b),(b,a)):
                if u.eq(kv) and kv.decl().name() not in consts(v):
                    return And(*[z3.substitute(o,(kv,v)) for j,o in enumerate(cs) if j!=i])
    out=[c for c in cs if kv.decl().name() not in consts(c)]
    inn=[c for c in cs if kv.decl().name() in consts(c)]
    if len(inn)>0:
        for i,c in enumerate(inn):
            if z3.is_or(c) and len(inn)<=6 and len(c.children())<=4:
                rest=inn[:i]+inn[i+1:]
                return And(*out,Or(*[exists(kv,And(*rest,d)) for d in c.children()]))
    return And(*out,z3.Exists([kv],And(*inn)))
def forall(kv,body): return Not(exists(kv,Not(body)))
def generalise(phi,mk,cur,kv,gmap,extra,exclude=(),keep=()):
    """body-fresh constants/functions (serial>mk) and the names in extra become functions of the key kv"""
    from ex import DEFFACT
    todo=[phi]; done=set()
    r=_gen(phi,mk,cur,kv,gmap,extra,exclude,DEFFACT,keep)
    return r
def _gen(phi,mk,cur,kv,gmap,extra,exclude,DEFFACT,keep=()):
    names=consts(phi)
    csub=[(cur,kv)]; fsub=[]
    for n in names:
        if n==cur.decl().name() or n in keep: continue
        if SERIAL.get(n,0)>mk or n in extra:
            if n==kv.decl().name(): continue
            g=gmap.get(n)
            if g is None:
                d=_find_decl(phi,n)
                if d is None: continue
                if d.arity()==0 and n in [x for x in ()]: continue
                core._n[0]+=1; nm='%s@%d'%(n.split('!')[0],core._n[0]); SERIAL[nm]=core._n[0]
                f=z3.Function(nm,*([kv.sort()]+[d.domain(i) for i in range(d.arity())]+[d.range()]))
                gmap[n]=g=(d,f)
                # definitional facts carry over
                for df in DEFFACT.get(n,[]):
                    if consts(df)&set(exclude): continue
                    q=_gen(df,mk,cur,kv,gmap,extra,exclude,DEFFACT)
                    DEFFACT.setdefault(nm,[]).append(z3.ForAll([kv],q) if kv.decl().name() in consts(q) else q)
            d,f=g
            if d.arity()==0: csub.append((d(),f(kv)))
            else: fsub.append((d,f))
    r=phi
    if fsub:
        for d,f in fsub:
            r=rewrite(r,lambda u,d=d,f=f: f(kv,*u.children()) if (z3.is_app(u) and u.num_args()>0 and u.decl().eq(d)) else None)
    return z3.substitute(r,*csub)
def _find_decl(t,name):
    seen=set(); st=[t]
    while st:
        u=st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u): st.append(u.body()); continue
        if z3.is_app(u) and u.decl().kind()==z3.Z3_OP_UNINTERPRETED and u.decl().name()==name: return u.decl()
        st+=u.children()
    return None
