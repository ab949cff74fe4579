"""Forward symbolic execution of the extracted function bodies; produces verification conditions."""
import z3, re, sys
from core import *
import core
from prog import strip_targs

class Exc:  # thrown exception description
    def __init__(s,ty,val=None): s.ty=ty; s.val=val
EXC_BASES={'rec:RunTimeErrorWithErrno':'rec:std::runtime_error','rec:std::runtime_error':'rec:std::exception','rec:std::exception':None,
  'rec:std::out_of_range':'rec:std::logic_error','rec:std::logic_error':'rec:std::exception','rec:std::invalid_argument':'rec:std::logic_error'}
def exc_matches(ty,catch):
    catch=strip_ref(catch)
    while ty:
        if ty==catch: return True
        ty=EXC_BASES.get(ty)
    return False
class Pv:   # pair of (value, lvalue): dereferenced map iterator
    __slots__=('a','b','ty')
    def __init__(s,a,b,ty): s.a=a; s.b=b; s.ty=ty
ALGS=('find','find_if','find_if_not','any_of','all_of','none_of','count','count_if','for_each')
class Out:
    def __init__(s): s.n=[]; s.b=[]; s.c=[]; s.r=[]
    def add(s,o): s.b+=o.b; s.c+=o.c; s.r+=o.r
class Obl:
    __slots__=('name','hyps','goal','fn','line','kind')
    def __init__(s,name,hyps,goal,fn,line,kind): s.name=name; s.hyps=hyps; s.goal=goal; s.fn=fn; s.line=line; s.kind=kind

# definitional axioms of fresh constants / functions: name -> list of formulas
DEFFACT={}
def deffact(c,f): DEFFACT.setdefault(c.decl().name() if z3.is_expr(c) else c.name(),[]).append(f)

# ------------------------------------------------------------------ merging
def _mval(c,a,b):
    if same(a,b): return a
    if isinstance(a,T) and isinstance(b,T):
        if a.t.sort()!=b.t.sort(): raise Unmergeable('sorts')
        return T(Ite(c,a.t,b.t),a.ty,a.bv if (a.bv is not None and b.bv is not None and a.bv.eq(b.bv)) else None)
    if isinstance(a,Obj) and isinstance(b,Obj):
        ks=[k for k in a.f if k in b.f]
        return Obj(a.ty,{k:_mval(c,a.f[k],b.f[k]) for k in ks})
    if isinstance(a,Obj) and isinstance(b,T): return _mval(c,T(pack(a),a.ty),b)
    if isinstance(a,T) and isinstance(b,Obj): return _mval(c,a,T(pack(b),b.ty))
    if isinstance(a,Stream) and isinstance(b,Stream) and a.kind==b.kind:
        return Stream(a.kind,{k:_mval(c,a.f[k],b.f[k]) for k in a.f if k in b.f})
    if isinstance(a,It) and isinstance(b,It) and a.kind==b.kind and same(a.clv,b.clv):
        def m(x,y):
            if x is None or y is None: return None
            return Ite(c,x,y)
        return a.cp(V=m(a.V,b.V),cur=m(a.cur,b.cur),pos=m(a.pos,b.pos),end=m(a.end,b.end))
    if isinstance(a,Ptr) and isinstance(b,Ptr):
        na=TRUE if a.lv is None else (a.null if a.null is not None else FALSE)
        nb=TRUE if b.lv is None else (b.null if b.null is not None else FALSE)
        if a.lv is not None and b.lv is not None and not same(a.lv,b.lv): raise Unmergeable('ptr')
        return Ptr(a.lv or b.lv,a.ty,Ite(c,na,nb))
    if isinstance(a,Raw) and isinstance(b,Raw): return Raw(a.ty,Ite(c,a.t,b.t))
    if isinstance(a,Raw) and isinstance(b,T) and b.t.sort()==Opq: return Raw(a.ty,Ite(c,a.t,b.t))
    if isinstance(b,Raw) and isinstance(a,T) and a.t.sort()==Opq: return T(Ite(c,a.t,b.t),a.ty)
    if isinstance(a,Pv) and isinstance(b,Pv) and same(a.b,b.b): return Pv(_mval(c,a.a,b.a),a.b,a.ty)
    raise Unmergeable('%s/%s'%(type(a).__name__,type(b).__name__))
class Unmergeable(Exception): pass
def merge2(c,s1,p1,s2,p2,prefix):
    n=St(); n.track=s1.track
    for k in s1.store:
        if k in s2.store: n.store[k]=_mval(c,s1.store[k],s2.store[k])
    for k in set(s1.ghost)|set(s2.ghost):
        a=s1.ghost.get(k); b=s2.ghost.get(k)
        if a is None: a=ghost0(k,b.sort())
        if b is None: b=ghost0(k,a.sort())
        n.ghost[k]=Ite(c,a,b)
    n.pc=list(prefix)
    # facts common to both need no guard
    s2ids={x.get_id() for x in p2}; common=[x for x in p1 if x.get_id() in s2ids]; cid={x.get_id() for x in common}
    a=[x for x in p1 if x.get_id() not in cid and not x.eq(c)]; b=[x for x in p2 if x.get_id() not in cid and not x.eq(Not(c))]
    n.pc+=common
    for x in a: n.pc.append(Implies(c,x))
    for x in b: n.pc.append(Implies(Not(c),x))
    return n
_gz={}
def ghost0(name,srt):
    k=(name,str(srt))
    if k not in _gz: _gz[k]=z3.Const('g0_'+name,srt)
    return _gz[k]
def _common(sts):
    i=0
    while all(len(s.pc)>i for s in sts) and all(s.pc[i].eq(sts[0].pc[i]) for s in sts): i+=1
    return i
def merge(sts):
    """list of states -> single merged state, or raises Unmergeable"""
    sts=[s for s in sts if not s.dead()]
    if not sts: return None
    if len(sts)==1: return sts[0]
    i=_common(sts)
    lits=[s.pc[i] if len(s.pc)>i else None for s in sts]
    g1=[sts[0]]; g2=[]; c=lits[0]
    if c is not None:
        nc=Not(c)
        for s,l in zip(sts[1:],lits[1:]):
            if l is not None and l.eq(c): g1.append(s)
            else: g2.append(s)
        if not all(l is not None and l.eq(nc) for s,l in zip(sts,lits) if s in g2): c=None
    if c is None:
        # no syntactic branch literal: fresh selector
        g1=[sts[0]]; g2=sts[1:]
        m1=merge(g1); m2=merge(g2)
        sel=fresh('sel',B)
        pre=sts[0].pc[:i]
        return merge2(sel,m1,m1.pc[i:],m2,m2.pc[i:],pre)
    m1=merge(g1); m2=merge(g2)
    pre=sts[0].pc[:i]
    return merge2(c,m1,m1.pc[i:],m2,m2.pc[i:],pre)
def try_merge(sts):
    sts=[s for s in sts if not s.dead()]
    if len(sts)<=1: return sts
    try: return [merge(sts)]
    except Unmergeable: return sts
def merge_vals(pairs):
    """[(st,val)] -> [(st,val)] merged if possible"""
    pairs=[p for p in pairs if not p[0].dead()]
    if len(pairs)<=1: return pairs
    key=('tmp','mv')
    if any(p[1] is None for p in pairs):
        return [(s,None) for s in try_merge([p[0] for p in pairs])] if all(p[1] is None for p in pairs) else pairs
    for s,v in pairs: s.store[key]=v
    ms=try_merge([p[0] for p in pairs])
    out=[]
    for m in ms: out.append((m,m.store.pop(key)))
    return out

class Ex:
    def __init__(s,prog,lib,contracts=None,opts=None):
        s.prog=prog; s.lib=lib; s.contracts=contracts or {}; s.opts=opts or {}
        s.obls=[]; s.dry=0; s.thr=[[]]; s.exits=[]; s.fnstack=[]; s.assumptions=set(); s.inlined=set(); s.used_contracts=set()
        s.dyn={}           # root -> dynamic class
        s.loopn=[]; s.hints=s.opts.get('hints',{}); s.noauto=s.opts.get('noauto',()); s.nheap=0; s.temps=[]
        s.loop_stats={}
    # ---------------------------------------------------------------- helpers
    def note(s,a): s.assumptions.add(a)
    def where(s): return s.fnstack[-1]['name'] if s.fnstack else '?'
    def oblige(s,st,goal,name,kind='assert',line=0):
        if s.dry: return
        if is_t(goal): s.trivial=getattr(s,'trivial',0)
        s.obls.append(Obl(name,list(st.pc),goal,s.where(),line,kind))
    def g(s,st,name,srt=None):
        if name not in st.ghost: st.ghost[name]=ghost0(name,srt)
        return st.ghost[name]
    def newroot(s,base='tmp'):
        s.nheap+=1; return ('h',base,s.nheap)
    def temp(s,st,val,ty=None):
        r=s.newroot(); st.store[r]=val; return LV(r,(),ty)
    # ---------------------------------------------------------------- lvalues
    def step_get(s,v,p,st):
        k=p[0]
        if isinstance(v,LV): v=s.read(st,v)
        if k=='f':
            if isinstance(v,Obj):
                if p[1] not in v.f: raise Unsupported('field %s of %s'%(p[1],v.ty))
                return v.f[p[1]]
            if isinstance(v,T):
                n=ptype(v.ty)[0][4:]; fs=rec_fields(n)
                for i,(fk,ft) in enumerate(fs):
                    if fk==p[1]: return T(acc(sort(v.ty),i,v.t),ft)
            raise Unsupported('field %s of %r'%(p[1],v))
        if k=='mv': return T(Select(mval(v.t,v.ty),p[1]),ptype(strip_ref(v.ty))[1][1])
        if k=='vi': return T(Select(varr(v.t,v.ty),p[1]),ptype(strip_ref(v.ty))[1][0])
        if k=='p':
            if isinstance(v,Pv): return v.a if p[1]==0 else s.read(st,v.b)
            return T((pfst if p[1]==0 else psnd)(v.t,v.ty),ptype(strip_ref(v.ty))[1][p[1]])
        if k=='ch': return T(strat(v.t,p[1]),'char')
        if k=='off': return T(ssub(v.t,p[1],strlen(v.t)),'ptr(char)')     # from an offset into a character array
        raise Unsupported('path %s'%k)
    def step_set(s,v,p,new):
        k=p[0]
        if k=='f':
            if isinstance(v,Obj):
                f=dict(v.f); f[p[1]]=new; return Obj(v.ty,f)
            o=unpack(v.t,v.ty); o.f[p[1]]=new; return T(pack(o),v.ty)
        if k=='mv': return T(mkmap(mdom(v.t,v.ty),z3.Store(mval(v.t,v.ty),p[1],pack(new)),v.ty),v.ty)
        if k=='vi': return T(mkvec(vlen(v.t,v.ty),z3.Store(varr(v.t,v.ty),p[1],pack(new)),v.ty),v.ty)
        if k=='p':
            if p[1]==0: return T(mkpair(pack(new),psnd(v.t,v.ty),v.ty),v.ty)
            return T(mkpair(pfst(v.t,v.ty),pack(new),v.ty),v.ty)
        if k=='ch': return T(supd(v.t,p[1],new.t),v.ty)
        if k=='off': return T(Ite(p[1]<=strlen(v.t),cat(ssub(v.t,z3.IntVal(0),p[1]),new.t),v.t),v.ty)
        raise Unsupported('path set %s'%k)
    def read(s,st,lv):
        if lv.root not in st.store: raise Unsupported('read of unknown location %s'%(lv.root,))
        v=st.store[lv.root]
        for p in lv.path: v=s.step_get(v,p,st)
        if isinstance(v,LV): return s.read(st,v)
        return v
    def write(s,st,lv,new):
        # resolve references on the way
        v=st.store.get(lv.root)
        if not lv.path:
            if isinstance(v,LV): return s.write(st,v,new)
            if isinstance(new,T) and isinstance(v,T) and new.t.sort()!=v.t.sort(): new=T(coerce(new.t,v.t.sort()),v.ty)
            if isinstance(new,T) and isinstance(v,T) and new.ty!=v.ty: new=T(new.t,v.ty,new.bv)
            if isinstance(v,Obj) and isinstance(new,T): new=unpack(new.t,new.ty) if sort(new.ty)!=Opq else new
            st.store[lv.root]=new; return
        def rec(v,path):
            if not path:
                n=new
                if isinstance(v,T) and isinstance(n,T):
                    if n.t.sort()!=v.t.sort(): n=T(coerce(n.t,v.t.sort()),v.ty)
                    else: n=T(n.t,v.ty,n.bv)
                elif isinstance(v,T) and isinstance(n,Obj): n=T(pack(n),v.ty)
                elif isinstance(v,Obj) and isinstance(n,T) and sort(n.ty)!=Opq: n=unpack(n.t,n.ty)
                return n
            if isinstance(v,Pv):
                raise Unsupported('write through pair value')
            sub=s.step_get(v,path[0],st) if not (isinstance(v,Obj) and path[0][0]=='f' and path[0][1] not in v.f) else None
            return s.step_set(v,path[0],rec(sub,path[1:]))
        # references inside the path
        cur=st.store[lv.root]; pth=[]
        if isinstance(cur,LV): return s.write(st,LV(cur.root,cur.path+lv.path,lv.ty),new)
        if isinstance(cur,Pv) and lv.path[0]==('p',1) or (isinstance(cur,Pv) and lv.path[0][:2]==('p',1)):
            return s.write(st,LV(cur.b.root,cur.b.path+lv.path[1:],lv.ty),new)
        v=cur
        for i,p in enumerate(lv.path):
            if isinstance(v,Obj) and p[0]=='f' and isinstance(v.f.get(p[1]),LV):
                t=v.f[p[1]]
                return s.write(st,LV(t.root,t.path+lv.path[i+1:],lv.ty),new)
            if i<len(lv.path)-1:
                v=s.step_get(v,p,st) if not (isinstance(v,Obj) and p[0]=='f' and p[1] not in v.f) else None
                if v is None: break
        st.store[lv.root]=rec(cur,lv.path)
    def load(s,st,v):
        if isinstance(v,LV): return s.read(st,v)
        return v
    def field(s,st,base,key,ty):
        """lvalue or value of member"""
        if isinstance(base,Ptr):
            if base.lv is None: raise Unsupported('null deref')
            base=base.lv
        if isinstance(base,LV):
            v=s.read(st,base)
            if isinstance(v,LV): base=v; v=s.read(st,v)
            if isinstance(v,Raw):   # external struct (stat, dirent, ...): lazily expanded
                v=Obj(v.ty,{}); s.write(st,base,v)
            if isinstance(v,Obj) and key not in v.f:
                f=dict(v.f); f[key]=fresh_val(key.split('::')[-1],ty); s.assume_range(st,f[key]); s.write(st,base,Obj(v.ty,f))
            if isinstance(v,Obj) and isinstance(v.f.get(key),LV): return v.f[key]
            return LV(base.root,base.path+(('f',key),),ty)
        if isinstance(base,(T,Obj)): return s.step_get(base,('f',key),st)
        if isinstance(base,It): return s.field(st,s.deref(st,base),key,ty)
        raise Unsupported('member %s of %r'%(key,base))
    def assume_range(s,st,v):
        if isinstance(v,T) and v.t.sort()==I:
            n=unsigned_bits(strip_ref(v.ty))
            if n: st.assume(v.t>=0,v.t<2**n)
            elif v.ty=='char': st.assume(v.t>=-128,v.t<=127)
            elif signed_bits(strip_ref(v.ty)):
                n=signed_bits(strip_ref(v.ty)); st.assume(v.t>=-2**(n-1),v.t<2**(n-1))
        elif isinstance(v,Obj):
            for x in v.f.values(): s.assume_range(st,x)
        elif isinstance(v,T) and kind(v.ty)=='vec': st.assume(vlen(v.t,v.ty)>=0)
    # ---------------------------------------------------------------- default values
    def default(s,st,ty,zero=False):
        """default-initialised object of type ty -> [(st,val)] simplified to single value"""
        ty=strip_ref(ty); k=kind(ty)
        if k=='str': return T(lit(''),ty)
        if k=='set': return T(emptyset(sort(ptype(ty)[1][0])),ty)
        if k=='vec':
            return T(mkvec(z3.IntVal(0),core_arr0(ty),ty),ty)
        if k=='map': return T(mkmap(emptyset(sort(ptype(ty)[1][0])),core_val0(ty),ty),ty)
        if k=='pair':
            a=ptype(ty)[1]; return T(mkpair(pack(s.default(st,a[0],True)),pack(s.default(st,a[1],True)),ty),ty)
        if k=='bool': return mkbool(False) if zero else s.frv(st,'uninit',ty)
        if k=='int': return mkint(0,ty) if zero else s.frv(st,'uninit',ty)
        if k=='cstr': return T(lit('') if zero else fresh('buf',Str),ty)
        if k=='ptr' : return T(NULLP,ty) if zero else s.frv(st,'uninit',ty)
        if k=='rec':
            n=ptype(ty)[0][4:]; r=RECORDS.get(n)
            if r is None: return s.lib.default_rec(s,st,ty)
            ctors=[f for f in s.prog.by_name.get(n+'::'+n.split('::')[-1],[]) if f.get('ctor') and not f['ps']]
            if ctors:
                o=s.blank(st,ty); root=s.newroot('obj'); st.store[root]=o
                outs=s.run_ctor(st,ctors[0],LV(root,(),ty),[])
                if len(outs)!=1: raise Unsupported('ctor forks')
                st2=outs[0]
                if st2 is not st: st.store=st2.store; st.ghost=st2.ghost; st.pc=st2.pc
                v=st.store.pop(root); return v
            o=s.blank(st,ty,zero); return o
        if ty.startswith('lambda'): raise Unsupported('default lambda')
        return Raw(ty)
    def blank(s,st,ty,zero=False):
        """object whose class members are default constructed and whose scalars are indeterminate"""
        n=ptype(ty)[0][4:]; f={}
        fs=rec_fields(n)
        if sort(ty)==Opq and not fs: return Obj(ty,{})
        for fk,ft in fs: f[fk]=fresh_val('ref',ft) if ptype(ft)[0] in('ref','cref') else s.default(st,ft,zero)
        return Obj(ty,f)
    def frv(s,st,base,ty):
        v=fresh_val(base,ty); s.assume_range(st,v); return v
    # ---------------------------------------------------------------- integer conversions
    def conv(s,v,ty):
        t=v.t if isinstance(v,T) else None
        if t is None: return v
        k=kind(ty)
        if k=='bool': return T(coerce(t,B),ty)
        if k=='float': return T(z3.ToReal(t) if t.sort()==I else t,ty)
        if k!='int': return T(t,ty)
        if t.sort()==B: return T(coerce(t,I),ty)
        if t.sort()==R_: return T(z3.ToInt(t),ty)
        if t.sort()!=I: return T(t,ty)
        n=unsigned_bits(ty); sb=signed_bits(ty) or (32 if ty.startswith('enum') else 0)
        src=v.ty; un=unsigned_bits(src); ss=signed_bits(src) or (32 if src.startswith('enum') else (1 if src=='bool' else 0))
        bv=v.bv
        if isint(t):
            x=t.as_long()
            if n: x%=2**n
            elif sb:
                x%=2**sb
                if x>=2**(sb-1): x-=2**sb
            return T(z3.IntVal(x),ty,bv)
        if n:
            if un and un<=n: return T(t,ty,bv)
            if ss:
                if ss<=n: return T(Ite(t>=0,t,t+2**n),ty)
                return T(t % (2**n),ty)
            return T(Ite(t<2**n,t,t % (2**n)),ty)
        if sb:
            if ss and ss<=sb: return T(t,ty,bv)
            if un and un<sb: return T(t,ty,bv)
            if un==sb: return T(Ite(t<2**(sb-1),t,t-2**sb),ty)
            m=t % (2**sb)
            return T(Ite(z3.And(t>=-2**(sb-1),t<2**(sb-1)),t,Ite(m<2**(sb-1),m,m-2**sb)),ty)
        return T(t,ty,bv)
    def truth(s,st,v):
        v=s.load(st,v)
        if isinstance(v,T):
            if v.t.sort()==B: return v.t
            if v.t.sort()==I: return Not(Eq(v.t,z3.IntVal(0)))
            if v.t.sort()==Opq: return Not(Eq(v.t,NULLP))
            if v.t.sort()==Str: return Not(Eq(v.t,NULLSTR))
        if isinstance(v,Ptr):
            if v.lv is None: return FALSE
            return Not(v.null) if v.null is not None else TRUE
        if isinstance(v,Raw): return Not(Eq(v.t,NULLP))
        if isinstance(v,Stream): return Not(v.f['fail'].t)
        if isinstance(v,Clo): return TRUE
        raise Unsupported('truth %r'%v)
    # ---------------------------------------------------------------- expressions
    def ev(s,e,st):
        if st.dead(): return []
        m=getattr(s,'e_'+e['k'],None)
        if m is None: raise Unsupported('expr '+e['k']+' '+str(e.get('what','')))
        r=m(e,st)
        return [x for x in r if not x[0].dead()]
    def evs(s,es,st):
        """evaluate a list of expressions -> [(st,[vals])]"""
        acc_=[(st,[])]
        for e in es:
            nxt=[]
            for st1,vs in acc_:
                for st2,v in s.ev(e,st1): nxt.append((st2,vs+[v]))
            acc_=nxt
        return acc_
    def rv(s,e,st):
        return [(a,s.load(a,v)) for a,v in s.ev(e,st)]
    def cond(s,e,st):
        """-> [(st, z3 Bool)]"""
        return [(a,s.truth(a,v)) for a,v in s.ev(e,st)]
    def e_Int(s,e,st):
        if kind(e['t'])=='bool': return [(st,mkbool(e['v']!='0'))]
        return [(st,mkint(int(e['v']),e['t']))]
    def e_Float(s,e,st): return [(st,T(z3.RealVal(e['v']),'float'))]
    def e_StrLit(s,e,st): return [(st,T(lit(e['v']),'ptr(char)'))]
    def e_Null(s,e,st): return [(st,Ptr(None,e['t']))]
    def e_This(s,e,st): return [(st,Ptr(s.this(st),e['t']))]
    def this(s,st): return s.fnstack[-1]['this']
    def e_DefArg(s,e,st): return s.ev(e['e'],st)
    def e_ZeroInit(s,e,st): return [(st,s.default(st,e['t'],True))]
    def e_Ref(s,e,st):
        r=('v',e['id'])
        if r in st.store:
            v=st.store[r]
            if isinstance(v,LV): return [(st,v)]
            return [(st,LV(r,(),e['t']))]
        if e.get('global'):
            if e.get('init') is not None:
                out=[]
                for a,v in s.rv(e['init'],st): out.append((a,v))
                return out
            gv=s.lib.global_ref(s,st,e)
            if gv is not None: return [(st,gv)]
            st.store[r]=fresh_val('g_'+e['n'],e['t']); s.note('global variable %s: arbitrary initial value'%e['qn'])
            if 'global' in s.opts: s.opts['global'](s,st,e['qn'],r)
            return [(st,LV(r,(),e['t']))]
        raise Unsupported('unbound variable %s'%e['n'])
    def e_Binding(s,e,st):
        r=('v',e['id'])
        if r in st.store:
            v=st.store[r]
            return [(st,v if isinstance(v,LV) else LV(r,(),e['t']))]
        raise Unsupported('binding '+e['n'] if 'n' in e else 'binding')
    def e_FnRef(s,e,st): return [(st,Clo({'fnref':e['fn']},None,None))]
    def e_Member(s,e,st):
        out=[]
        for a,b in s.ev(e['e'],st):
            out.append((a,s.member(a,b,e)))
        return out
    def member(s,st,b,e):
        n=e['n']
        if isinstance(b,LV):
            bv=s.read(st,b)
            if isinstance(bv,(Ptr,It,Pv)): b=bv
            elif isinstance(bv,T) and e.get('arrow') and bv.t.sort()==Opq:
                return s.lib.opaque_member(s,st,bv,e)
            elif isinstance(bv,Raw) and e.get('arrow'): return s.lib.opaque_member(s,st,bv,e)
        if isinstance(b,It): b=s.deref(st,b)
        if isinstance(b,(T,Raw)) and e.get('arrow') and (isinstance(b,Raw) or b.t.sort()==Opq): return s.lib.opaque_member(s,st,b,e)
        if e.get('owner','').startswith('std::pair') and n in('first','second'):
            i=0 if n=='first' else 1
            if isinstance(b,Pv): return b.a if i==0 else b.b
            if isinstance(b,Ptr): b=b.lv
            if isinstance(b,LV):
                v=s.read(st,b)
                if isinstance(v,Pv): return v.a if i==0 else v.b
                return LV(b.root,b.path+(('p',i),),e['t'])
            return s.step_get(b,('p',i),st)
        owner=e.get('owner')
        return s.field(st,b,(owner or '?')+'::'+n,e['t'])
    def deref(s,st,it):
        """value/lvalue an iterator designates"""
        if it.kind=='key':
            ety=ptype(strip_ref(it.cty))
            s.oblige(st,Not(it.end),'iterator-dereferenceable','safety') if s.opts.get('safety') else None
            if ety[0] in SET: return T(it.cur,ety[1][0])
            return Pv(T(it.cur,ety[1][0]),LV(it.clv.root,it.clv.path+(('mv',it.cur),),ety[1][1]),'std::pair(%s,%s)'%ety[1])
        c=s.load(st,it.clv) if isinstance(it.clv,LV) else it.clv
        idx=it.pos
        if kind(it.cty) in('str','cstr'):
            if it.rev: idx=strlen(c.t)-1-it.pos
            return LV(it.clv.root,it.clv.path+(('ch',idx),),'char') if isinstance(it.clv,LV) else T(strat(c.t,idx),'char')
        if it.rev: idx=vlen(c.t,it.cty)-1-it.pos
        if isinstance(it.clv,LV): return LV(it.clv.root,it.clv.path+(('vi',idx),),ptype(strip_ref(it.cty))[1][0])
        return s.step_get(c,('vi',idx),st)
    def e_Cast(s,e,st):
        ck=e['ck']; out=[]
        for a,v in s.ev(e['e'],st):
            if ck in('IntegralCast','IntegralToFloating','FloatingToIntegral','FloatingCast','BooleanToSignedIntegral'):
                out.append((a,s.conv(s.load(a,v),e['t'])))
            elif ck in('IntegralToBoolean','PointerToBoolean','FloatingToBoolean'): out.append((a,T(s.truth(a,v),'bool')))
            elif ck=='NullToPointer': out.append((a,T(NULLSTR,e['t']) if kind(e['t'])=='cstr' else Ptr(None,e['t'])))
            elif ck=='ToVoid': out.append((a,VOID))
            elif ck in('BitCast',):
                lv=s.load(a,v)
                if isinstance(v,LV) and isinstance(lv,T) and lv.t.sort()==Str and ptype(strip_ref(lv.ty))[0]=='arr': out.append((a,v)); continue
                if isinstance(lv,T) and lv.t.sort()==Opq and kind(e['t'])=='cstr': lv=T(fresh('cast',Str),e['t'])
                out.append((a,lv))
            elif ck in('BaseToDerived','Dynamic'): out.append((a,v))
            elif ck=='IntegralToPointer': out.append((a,Raw(e['t'])))
            elif ck=='PointerToIntegral': out.append((a,s.frv(a,'p2i',e['t'])))
            else: raise Unsupported('cast '+ck)
        return out
    def e_Cond(s,e,st):
        out=[]
        for a,c in s.cond(e['c'],st):
            t=a.cp(); t.assume(c); f=a.cp(); f.assume(Not(c))
            ps=[]
            for br,x in((t,e['a']),(f,e['b'])):
                if br.dead() or is_f(c) and br is t or is_t(c) and br is f: continue
                for b,v in s.ev(x,br):
                    ps.append((b,v))
            if len(ps)==2 and not (isinstance(ps[0][1],LV) and isinstance(ps[1][1],LV) and same(ps[0][1],ps[1][1])):
                ps=[(b,s.load(b,v)) for b,v in ps]
            out+=merge_vals(ps)
        return out
    def e_Bin(s,e,st):
        op=e['op']
        if op in('&&','||'):
            out=[]
            for a,c in s.cond(e['a'],st):
                stop=Not(c) if op=='&&' else c
                go=Not(stop)
                ps=[]
                if not is_f(stop):
                    t=a.cp(); t.assume(stop); ps.append((t,mkbool(op=='||')))
                if not is_f(go):
                    f=a.cp(); f.assume(go)
                    for b,d in s.cond(e['b'],f): ps.append((b,T(d,'bool')))
                # pure right operand: plain connective
                out+=merge_vals(ps)
            return out
        if op==',':
            out=[]
            for a,_ in s.ev(e['a'],st): out+=s.ev(e['b'],a)
            return out
        out=[]
        for a,(x,y) in s.evs([e['a'],e['b']],st):
            if op=='+' and isinstance(x,LV):
                w=s.read(a,x)
                if isinstance(w,T) and w.t.sort()==Str and ptype(strip_ref(w.ty))[0]=='arr':
                    y=s.load(a,y)
                    if isinstance(y,T) and y.t.sort()==I: out.append((a,LV(x.root,x.path+(('off',y.t),),'ptr(char)'))); continue
            out.append((a,s.binop(a,op,s.load(a,x),s.load(a,y),e['t'])))
        return out
    def binop(s,st,op,x,y,ty):
        if op in('==','!='):
            r=s.equal(st,x,y); return T(Not(r) if op=='!=' else r,'bool')
        if isinstance(x,It) or isinstance(y,It): raise Unsupported('iterator arithmetic')
        if isinstance(x,(Ptr,Raw)) or isinstance(y,(Ptr,Raw)):
            if op in('<','>','<=','>='): return T(fresh('pcmp',B),'bool')
            raise Unsupported('pointer arithmetic')
        a,b=x.t,y.t
        if a.sort()==Str and op=='+' and b.sort()==I: return T(ssub(a,b,strlen(a)),x.ty)     # pointer into a C string
        if a.sort()==Str or b.sort()==Str or a.sort()==Opq: raise Unsupported('pointer arithmetic')
        if a.sort()==B: a=coerce(a,I)
        if b.sort()==B: b=coerce(b,I)
        if a.sort()!=b.sort():
            a=z3.ToReal(a) if a.sort()==I else a; b=z3.ToReal(b) if b.sort()==I else b
        if op in('<','<=','>','>='):
            if isint(a) and isint(b):
                p,q=a.as_long(),b.as_long(); return mkbool({'<':p<q,'<=':p<=q,'>':p>q,'>=':p>=q}[op])
            return T({'<':a<b,'<=':a<=b,'>':a>b,'>=':a>=b}[op],'bool')
        n=unsigned_bits(ty)
        if isint(a) and isint(b):
            p,q=a.as_long(),b.as_long(); r=None
            if op=='+': r=p+q
            elif op=='-': r=p-q
            elif op=='*': r=p*q
            elif op=='&': r=p&q
            elif op=='|': r=p|q
            elif op=='<<': r=p<<q
            elif op=='>>': r=p>>q
            elif op=='/' and q: r=abs(p)//abs(q)*(1 if (p<0)==(q<0) else -1)
            elif op=='%' and q: r=abs(p)%abs(q)*(1 if p>=0 else -1)
            if r is not None: return s.conv(T(z3.IntVal(r),'i128'),ty)
        if a.sort()==R_:
            return T({'+':lambda:a+b,'-':lambda:a-b,'*':lambda:a*b,'/':lambda:a/b}[op](),'float')
        if op=='+':
            if n: return T(wrapadd(a,b,n),ty)
            return T(z3.simplify(a+b) if (isint(a) or isint(b)) else a+b,ty)
        if op=='-':
            if n: return T(Ite(a>=b,a-b,a-b+2**n),ty)
            return T(z3.simplify(a-b) if (isint(a) or isint(b)) else a-b,ty)
        if op=='*': return T(a*b,ty)
        if op=='/': return T(Ite(a>=0,a/b,-((-a)/b)) if not n else a/b,ty)
        if op=='%': return T(a%b if n else Ite(a>=0,a%b,-((-a)%b)),ty)
        if op in('&','|','^','<<','>>'):
            return s.bitop(st,op,x,y,ty)
        raise Unsupported('binop '+op)
    def bitop(s,st,op,x,y,ty):
        w=unsigned_bits(ty) or signed_bits(ty) or 32
        def bv(v):
            if v.bv is not None:
                b=v.bv
                return b if b.size()==w else (z3.ZeroExt(w-b.size(),b) if b.size()<w else z3.Extract(w-1,0,b))
            if isint(v.t): return z3.BitVecVal(v.t.as_long(),w)
            return None
        a,b=bv(x),bv(y)
        if isint(y.t) and z3.is_app_of(x.t,z3.Z3_OP_ITE) and isint(x.t.arg(1)) and isint(x.t.arg(2)):
            r=[s.bitop(st,op,T(x.t.arg(k),x.ty),y,ty).t for k in(1,2)]; return T(z3.If(x.t.arg(0),z3.simplify(r[0]),z3.simplify(r[1])),ty)
        if a is None or b is None:
            if op=='&' and isint(x.t) and not isint(y.t): x,y=y,x
            if op=='&' and isint(y.t) and y.t.as_long()>=0:
                m=y.t.as_long(); lo=m&-m if m else 1
                if ((m+lo)&m)==0: return T(x.t%(m+lo) if lo==1 else x.t%(m+lo)-x.t%lo,ty)       # a contiguous mask is exact in integers
            if op=='>>' and isint(y.t) and 0<=y.t.as_long()<64: return T(x.t/(1<<y.t.as_long()),ty)
            if op=='<<' and isint(y.t) and 0<=y.t.as_long()<64:
                r=x.t*(1<<y.t.as_long()); return T(r%2**w if unsigned_bits(ty) else r,ty)
            f=z3.Function('bit_'+{'&':'and','|':'or','^':'xor','<<':'shl','>>':'shr'}[op]+str(w),I,I,I)
            r=f(x.t,y.t)
            if unsigned_bits(ty): st.assume(r>=0,r<2**w)
            return T(r,ty)
        r={'&':lambda:a&b,'|':lambda:a|b,'^':lambda:a^b,'<<':lambda:a<<b,'>>':lambda:z3.LShR(a,b)}[op]()
        r=z3.simplify(r)
        return T(z3.BV2Int(r),ty,r)
    def equal(s,st,x,y):
        for v in(x,y):
            if isinstance(v,Clo): raise Unsupported('compare closures')
        if isinstance(x,It) and isinstance(y,It): return s.it_eq(st,x,y)
        def isnull(v):
            if isinstance(v,Ptr): return TRUE if v.lv is None else (v.null if v.null is not None else FALSE)
            if isinstance(v,T) and v.t.sort()==Opq: return Eq(v.t,NULLP)
            if isinstance(v,Raw): return Eq(v.t,NULLP)
            if isinstance(v,T) and v.t.sort()==Str: return Eq(v.t,NULLSTR)
            return None
        if isinstance(y,Ptr) and y.lv is None: return isnull(x)
        if isinstance(x,Ptr) and x.lv is None: return isnull(y)
        if isinstance(x,Ptr) and isinstance(y,Ptr):
            if same(x.lv,y.lv) : return TRUE
            raise Unsupported('pointer compare')
        if isinstance(x,(Raw,Ptr)) or isinstance(y,(Raw,Ptr)): return fresh('cmp',B)
        a,b=pack(x),pack(y)
        if isinstance(x,T) and isinstance(y,T) and (x.bv is not None or y.bv is not None):
            if x.bv is not None and isint(y.t) and 0<=y.t.as_long()<2**x.bv.size(): return z3.simplify(x.bv==y.t.as_long())
            if y.bv is not None and isint(x.t) and 0<=x.t.as_long()<2**y.bv.size(): return z3.simplify(y.bv==x.t.as_long())
            if x.bv is not None and y.bv is not None and x.bv.size()==y.bv.size(): return z3.simplify(x.bv==y.bv)
        if a.sort()!=b.sort():
            if a.sort()==B: a=coerce(a,I)
            if b.sort()==B: b=coerce(b,I)
            if a.sort()!=b.sort(): a=z3.ToReal(a) if a.sort()==I else a; b=z3.ToReal(b) if b.sort()==I else b
        return Eq(a,b)
    def it_eq(s,st,x,y):
        if x.kind!=y.kind or not same(x.clv,y.clv):
            raise Unsupported('iterators of different containers')
        def at_end(i): return isinstance(i.snap,str) or (i.end is not None and is_t(i.end))
        if at_end(x) and at_end(y): return TRUE
        if at_end(y): s.check_snap(st,x); return x.end if x.kind=='key' else Eq(x.pos,s.seqlen(st,x))
        if at_end(x): s.check_snap(st,y); return y.end if y.kind=='key' else Eq(y.pos,s.seqlen(st,y))
        if x.kind=='idx': return Eq(x.pos,y.pos)
        return Or(And(x.end,y.end),And(Not(x.end),Not(y.end),Eq(x.cur,y.cur)))
    def seqlen(s,st,it):
        c=s.load(st,it.clv) if isinstance(it.clv,LV) else it.clv
        return strlen(c.t) if kind(it.cty) in('str','cstr') else vlen(c.t,it.cty)
    def contset(s,st,clv,cty):
        c=s.load(st,clv) if isinstance(clv,LV) else clv
        return mdom(c.t,cty) if kind(cty)=='map' else c.t
    def check_snap(s,st,it):
        if it.kind=='key' and it.snap is not None and not isinstance(it.snap,str):
            c=s.contset(st,it.clv,it.cty)
            if not c.eq(it.snap) and not st.dead():
                # what is still to come is as it was when the iteration began (erasing what has been passed is fine)
                k=z3.Const('k!snap',c.sort().domain())
                s.oblige(st,c==it.snap if z3.is_K(it.V) else FAC(k,it.snap,z3.Implies(z3.Not(z3.Select(it.V,k)),Select(c,k)==z3.Select(it.snap,k)),*[z3.Select(l,k) for l in leaves_of(c)]),'the keys of a container are not changed while it is iterated','safety')
    def e_Un(s,e,st):
        op=e['op']; out=[]
        if op=='!':
            return [(a,T(Not(c),'bool')) for a,c in s.cond(e['e'],st)]
        if op=='&':
            for a,v in s.ev(e['e'],st):
                if isinstance(v,LV): out.append((a,Ptr(v,e['t'])))
                elif isinstance(v,Clo): out.append((a,v))
                else: out.append((a,Ptr(s.temp(a,v),e['t'])))
            return out
        if op=='*':
            for a,v in s.ev(e['e'],st):
                v=s.load(a,v)
                if isinstance(v,Ptr): out.append((a,v.lv))
                elif isinstance(v,It): out.append((a,s.deref(a,v)))
                elif isinstance(v,T) and v.t.sort()==Str: out.append((a,T(strat(v.t,z3.IntVal(0)),'char')))
                elif isinstance(v,(Raw,T)): out.append((a,s.frv(a,'deref',e['t'])))
                else: raise Unsupported('deref %r'%v)
            return out
        for a,lv in s.ev(e['e'],st):
            v=s.load(a,lv)
            if op in('++','--','++post','--post'):
                d=1 if op[0]=='+' else -1
                if isinstance(v,It):
                    nv=s.it_advance(a,v,d)
                elif isinstance(v,T) and v.t.sort()==I:
                    nb=unsigned_bits(v.ty); sb=signed_bits(v.ty); x=z3.simplify(v.t+d)
                    if isint(x): nv=s.conv(T(x,'i128'),v.ty)
                    elif nb and d<0: nv=T(Ite(v.t>=1,x,x+2**nb),v.ty)
                    elif nb and nb<=16: nv=T(Ite(x<2**nb,x,x-2**nb),v.ty)
                    elif sb and sb<=16: nv=s.conv(T(x,'i32'),v.ty)
                    else: nv=T(x,v.ty)
                elif isinstance(v,T) and v.t.sort()==Str:
                    if d<0: raise Unsupported('pointer --')
                    nv=T(cstr_next(v.t),v.ty)
                else: raise Unsupported('++ on %r'%v)
                s.write(a,lv,nv)
                out.append((a,v if op.endswith('post') else lv))
            elif op=='-':
                n=unsigned_bits(e['t'])
                out.append((a,s.conv(T(z3.simplify(-v.t),'i128'),e['t']) if isint(v.t) else T(Ite(Eq(v.t,z3.IntVal(0)),v.t,2**n-v.t) if n else -v.t,e['t'])))
            elif op=='+': out.append((a,v))
            elif op=='~':
                if isint(v.t): out.append((a,s.conv(T(z3.IntVal(~v.t.as_long()),'i128'),e['t'])))
                else: out.append((a,s.frv(a,'bnot',e['t'])))
            elif op=='__extension__': out.append((a,lv))
            else: raise Unsupported('unary '+op)
        return out
    def e_Assign(s,e,st):
        out=[]
        for a,(v,lv) in s.evs([e['b'],e['a']],st):
            v=s.load(a,v)
            if isinstance(lv,(Raw,T)): out.append((a,v)); continue
            s.write(a,lv,v); out.append((a,lv))
        return out
    def e_CompAssign(s,e,st):
        out=[]
        for a,(v,lv) in s.evs([e['b'],e['a']],st):
            v=s.load(a,v); o=s.load(a,lv)
            r=s.binop(a,e['op'],o,v,e['t']); s.write(a,lv,r); out.append((a,lv))
        return out
    def e_Subscript(s,e,st):
        out=[]
        for a,(b,i) in s.evs([e['e'],e['i']],st):
            i=s.load(a,i); out.append((a,s.lib.subscript(s,a,b,i,e)))
        return out
    def e_InitListExpr(s,e,st):
        out=[]
        for a,v in s.ev(e['e'],st): out.append((a,v))
        return out
    def e_InitList(s,e,st):
        out=[]
        for a,vs in s.evs(e['args'],st):
            vs=[s.load(a,v) for v in vs]
            out.append((a,s.lib.init_list(s,a,e,vs)))
        return out
    def e_StmtExpr(s,e,st): raise Unsupported('statement expression')
    def e_Throw(s,e,st):
        if 'e' not in e:
            s.thr[-1].append((st,getattr(s,'curexc',Exc('?')))); return []
        for a,v in s.rv(e['e'],st):
            s.thr[-1].append((a,Exc(e.get('tt','?'),v)))
        return []
    def e_New(s,e,st):
        out=[]
        if e.get('array'):
            for a,v in s.rv(e['size'],st):
                r=s.newroot('arr'); a.store[r]=T(fresh('newarr',Str),'ptr(char)') if kind(e['at'])=='int' else s.frv(a,'newarr',e['at'])
                out.append((a,s.load(a,LV(r)) if kind(e['at'])=='int' and e['at']=='char' else Ptr(LV(r,(),e['at']),e['t'])))
            return out
        if 'init' in e and e['init'].get('k')=='Ctor':
            for a,v in s.ev(e['init'],st):
                v=s.load(a,v); r=s.newroot('new'); a.store[r]=v; s.dyn[r]=ptype(e['at'])[0][4:]
                out.append((a,Ptr(LV(r,(),e['at']),e['t'])))
            return out
        raise Unsupported('new '+e['at'])
    def e_Delete(s,e,st):
        return [(a,VOID) for a,v in s.ev(e['e'],st)]
    def e_Lambda(s,e,st):
        cap={}
        for c in e['cap']:
            if c.get('this'): continue
            v=st.store.get(('v',c['id']))
            if c['byref']: cap[c['id']]=v if isinstance(v,LV) else LV(('v',c['id']))
            else: cap[c['id']]=s.load(st,v) if v is not None else None
        return [(st,Clo(e,cap,s.fnstack[-1].get('this') if s.fnstack else None))]
    # ---------------------------------------------------------------- construction
    def e_Ctor(s,e,st):
        ty=e['t']; fn=e['fn']
        if e.get('copy'):
            out=[]
            for a,v in s.ev(e['args'][0],st):
                v=s.load(a,v)
                if isinstance(v,Pv): v=T(mkpair(pack(v.a),pack(s.read(a,v.b)),v.ty),v.ty)
                out.append((a,v))
            return out
        if fn['repo']:
            f=s.prog.find(fn['sig'])
            root=s.newroot('obj'); out=[]
            for a,vs in s.evs(e['args'],st):
                con=s.contracts.get(fn['sig'])
                a.store[root]=s.blank(a,ty)
                s.dyn[root]=ptype(ty)[0][4:]
                if f is None and con is None:
                    if not e['args']:     # implicit default constructor
                        a2=s.ctor_bases(a,ty,LV(root,(),ty)); 
                        v=a2.store.pop(root); out.append((a2,v)); continue
                    raise Unsupported('constructor '+fn['sig'])
                if con is not None:
                    for b,_ in s.apply_contract(con,a,fn,LV(root,(),ty),vs,e): v=b.store.pop(root); out.append((b,v))
                    continue
                for b in s.run_ctor(a,f,LV(root,(),ty),vs):
                    v=b.store.pop(root)
                    if e.get('temp') and s.has_dtor(ty):
                        r2=s.newroot('dt'); b.store[r2]=v; s.temps.append((r2,ty)); out.append((b,v)); continue
                    out.append((b,v))
            return out
        out=[]
        for a,vs in s.evs(e['args'],st):
            r=s.lib.construct(s,a,e,[v for v in vs])
            out+= r if isinstance(r,list) else [(a,r)]
        return out
    def ctor_bases(s,st,ty,lv):
        """implicitly defined default constructor: default construct bases that have user constructors"""
        n=ptype(ty)[0][4:]; r=RECORDS[n]
        for b in r['bases']:
            bn=b[4:]
            cs=[f for f in s.prog.by_name.get(bn+'::'+bn.split('::')[-1],[]) if f.get('ctor') and not f['ps']]
            if cs:
                o=s.run_ctor(st,cs[0],lv,[],base=bn)
                st=o[0]
        return st
    def has_dtor(s,ty):
        n=ptype(ty)[0]
        if not n.startswith('rec:'): return None
        n=n[4:]
        return s.prog.find('%s::~%s()'%(n,n.split('::')[-1]))
    def run_ctor(s,st,f,lv,args,base=None,top=False):
        """run constructor f on the object at lv (already blank) -> [states]"""
        key=f['sig']
        if key in s.contracts and not base and not top:
            return [a for a,_ in s.apply_contract(s.contracts[key],st,f,lv,args,{'l':0})]
        s.inlined.add(f['sig'])
        s.fnstack.append({'name':f['name'],'this':lv,'f':f})
        try:
            st=s.bind(st,f,args)
            sts=[st]
            for i in f.get('inits',[]):
                nxt=[]
                for a in sts:
                    if 'field' in i:
                        fk=i['owner']+'::'+i['field']
                        if 'e' not in i: nxt.append(a); continue
                        for b,v in s.ev(i['e'],a):
                            if ptype(i['t'])[0] in('ref','cref'):
                                o=s.read(b,lv); ff=dict(o.f); ff[fk]=v if isinstance(v,LV) else s.temp(b,v); s.write(b,lv,Obj(o.ty,ff)); nxt.append(b); continue
                            v=s.load(b,v)
                            if i['e'].get('k')=='Ctor' and not i.get('written') and not i['e']['args']: nxt.append(b); continue
                            o=s.read(b,lv); ff=dict(o.f); old=ff.get(fk)
                            if isinstance(v,T) and isinstance(old,T) and v.t.sort()!=old.t.sort(): v=T(coerce(v.t,old.t.sort()),old.ty)
                            ff[fk]=v; s.write(b,lv,Obj(o.ty,ff)); nxt.append(b)
                    elif 'base' in i:
                        bf=s.prog.find(i['e']['fn']['sig']) if i.get('e',{}).get('k')=='Ctor' else None
                        if bf is None:
                            nxt.append(a); continue
                        for b,vs in s.evs(i['e']['args'],a): nxt+=s.run_ctor(b,bf,lv,vs,base=i['base'])
                    elif i.get('deleg'):
                        bf=s.prog.find(i['e']['fn']['sig'])
                        for b,vs in s.evs(i['e']['args'],a): nxt+=s.run_ctor(b,bf,lv,vs)
                sts=nxt
            res=[]
            for a in sts:
                o=s.stmt(f['body'],a)
                res+=o.n+[x[0] for x in o.r]
            res=try_merge(res)
            for a in res: s.unbind(a,f)
            return res
        finally: s.fnstack.pop()
    # ---------------------------------------------------------------- calls
    def e_MCall(s,e,st):
        fn=e.get('fn')
        if fn is None: raise Unsupported('member pointer call')
        out=[]
        objs=s.ev(e['obj'],st) if 'obj' in e else [(st,None)]
        for a,o in objs:
            for b,vs in s.evs(e['args'],a):
                if e.get('arrow'):
                    o2=s.load(b,o) if isinstance(o,LV) else o
                    if isinstance(o2,Ptr): o2=o2.lv
                    elif isinstance(o2,It): o2=s.deref(b,o2)
                else: o2=o
                out+=s.call(b,fn,o2,vs,e)
        return out
    def e_OpCall(s,e,st):
        fn=e.get('fn')
        out=[]
        if e['op'] in('<<','>>') :
            pass
        for a,vs in s.evs(e['args'],st):
            if fn and fn['repo']:
                if e.get('method'): out+=s.call(a,fn,vs[0],vs[1:],e)
                else: out+=s.call(a,fn,None,vs,e)
                continue
            if fn and fn['name'].startswith('(anonymous class)') or (fn and '(lambda' in fn['name']) or isinstance(vs[0],Clo) or (isinstance(vs[0],LV) and isinstance(s.peek(a,vs[0]),Clo)):
                out+=s.call_closure(a,s.load(a,vs[0]),vs[1:]); continue
            r=s.lib.opcall(s,a,e,vs)
            out+= r if isinstance(r,list) else [(a,r)]
        return out
    def peek(s,st,lv):
        try: return s.read(st,lv)
        except Unsupported: return None
    def e_Call(s,e,st):
        fn=e.get('fn'); out=[]
        if fn is None:
            for a,c in s.rv(e['callee'],st):
                for b,vs in s.evs(e['args'],a):
                    if isinstance(c,Clo): out+=s.call_closure(b,c,vs)
                    else: raise Unsupported('call through pointer')
            return out
        for a,vs in s.evs(e['args'],st): out+=s.call(a,fn,None,vs,e)
        return out
    def dyn_target(s,fn,obj,e):
        """virtual dispatch: returns the function to run, or None when unknown"""
        if not fn.get('virtual') or e.get('qualified') or obj is None or not s.prog.overriders.get(fn['sig']): return fn['sig']
        cls=s.dyn.get(obj.root) if isinstance(obj,LV) and not obj.path else None
        if cls is None: return None
        # most derived overrider
        short=fn['name'].split('::')[-1]; tail=fn['sig'][len(fn['name']):]
        c=cls; seen=[cls]
        while seen:
            c=seen.pop(0)
            sig=c+'::'+short+tail
            if sig in s.prog.by_sig or sig in s.contracts: return sig
            r=RECORDS.get(c)
            if r: seen+=[b[4:] for b in r['bases'] if b.startswith('rec:')]
        return fn['sig']
    def call(s,st,fn,obj,args,e):
        if not fn['repo'] and obj is None and len(args)==3 and fn['name'].startswith('std::') and s.lib.strip(fn['name'])[5:] in ALGS:
            return s.algorithm(st,s.lib.strip(fn['name'])[5:],args,e,fn)
        if not fn['repo']:
            r=s.lib.call(s,st,fn,obj,args,e)
            return r if isinstance(r,list) else [(st,r)]
        if isinstance(obj,(T,Obj,Raw,Pv)) : obj=s.temp(st,obj)
        if isinstance(obj,LV):
            v=st.store.get(obj.root)
            if isinstance(v,LV) and not obj.path: obj=v
        sig=s.dyn_target(fn,obj,e)
        con=s.contracts.get(sig) if sig else s.contracts.get(fn['sig'])
        if con is None and sig is None:
            con=s.contracts.get('virtual:'+fn['sig'])
            if con is None: raise Unsupported('virtual call %s on object of unknown class'%fn['sig'])
        if con is not None: return s.apply_contract(con,st,fn,obj,args,e)
        h=s.lib.repo_override(s,st,fn,obj,args,e)
        if h is not None: return h if isinstance(h,list) else [(st,h)]
        f=s.prog.find(sig)
        if f is None:
            # implicitly defined members
            short=fn['name'].split('::')[-1]
            if short.startswith('operator=') and len(args)==1:
                v=s.load(st,args[0]); s.write(st,obj,v); return [(st,obj)]
            if short.startswith('~'): return [(st,VOID)]
            raise Unsupported('no body for '+sig)
        return s.inline(st,f,obj,args)
    def algorithm(s,st,op,args,e,fn):
        """std::find, any_of and the like: the loop they stand for"""
        import loops
        first,last=s.load(st,args[0]),s.load(st,args[1])
        if not isinstance(first,It) or not isinstance(last,It): raise Unsupported('std::%s over other things than a container'%op)
        what=args[2] if op in('find','count') else s.load(st,args[2])
        if not(op in('find','count') or isinstance(what,Clo)): raise Unsupported('std::%s with another predicate'%op)
        hid=s.newroot('alg'); res=s.newroot('algres'); st.store[hid]=first
        counts=op in('count','count_if')
        st.store[res]=T(z3.IntVal(0),'i64') if counts else mkbool(False)
        def it(h):
            o=Out(); ex=[]; back=[]
            i=h.store[hid]; end=s.it_eq(h,i,last)
            if not is_t(end): pass
            f=h.cp(); f.assume(end); ex.append(f)
            t=h.cp(); t.assume(Not(end))
            if t.dead(): return ex,back,o
            d=s.deref(t,i)
            if op in('find','count'): pairs=[(t,s.equal(t,s.load(t,d),s.load(t,what)))]
            elif op=='for_each': pairs=[(a,FALSE) for a,_ in s.call_closure(t,what,[d])]
            else: pairs=[(a,s.truth(a,v)) for a,v in s.call_closure(t,what,[d])]
            for a,c in pairs:
                if op=='all_of' or op=='find_if_not': c=Not(c)
                if counts:
                    a.store[res]=T(Ite(c,a.store[res].t+1,a.store[res].t),'i64')
                else:
                    if not is_f(c):
                        b=a.cp(); b.assume(c); b.store[res]=mkbool(True)
                        if not b.dead(): o.b.append(b)
                    a.assume(Not(c))
                if not a.dead(): a.store[hid]=s.it_advance(a,i,1); back.append(a)
            back=try_merge(back); return ex,back,o
        rr=loops.run(s,{'k':'Alg','l':(e or {}).get('l',0)},st,it)
        out=[]
        for a in rr.n:
            i=a.store.pop(hid); r=a.store.pop(res)
            if op in('find','find_if','find_if_not'): v=i
            elif op in('all_of','none_of'): v=T(Not(r.t),'bool')
            elif op=='for_each': v=VOID
            else: v=r
            out.append((a,v))
        return out
    def apply_contract(s,con,st,fn,obj,args,e):
        s.used_contracts.add(con.name)
        return con.apply(s,st,fn,obj,args,e)
    def bind(s,st,f,args):
        for p,a in zip(f['ps'],args):
            r=('v',p['id'])
            if ptype(p['t'])[0] in('ref','cref'):
                if isinstance(a,LV):
                    v=st.store.get(a.root)
                    if a.root==r: 
                        tmp=s.newroot(); st.store[tmp]=st.store[r]; a=LV(tmp,a.path,a.ty)
                    st.store[r]=a
                else: st.store[r]=a if not isinstance(a,It) else a
            else:
                v=s.load(st,a)
                if isinstance(v,Pv): v=T(mkpair(pack(v.a),pack(s.read(st,v.b)),v.ty),v.ty)
                if isinstance(v,T) and kind(p['t']) in('bool','int') and v.t.sort()!=sort(p['t']): v=T(coerce(v.t,sort(p['t'])),p['t'])
                st.store[r]=v
        for p in f['ps'][len(args):]:
            if 'def' not in p: raise Unsupported('missing argument')
            for a,v in s.ev(p['def'],st): st.store[('v',p['id'])]=s.load(a,v)
        return st
    def unbind(s,st,f):
        for p in f['ps']: st.store.pop(('v',p['id']),None)
    def inline(s,st,f,obj,args):
        if any(fr.get('f') is f for fr in s.fnstack): raise Unsupported('recursion in '+f['sig'])
        if len(s.fnstack)>40: raise Unsupported('inline depth')
        s.inlined.add(f['sig'])
        saved={('v',p['id']):st.store[('v',p['id'])] for p in f['ps'] if ('v',p['id']) in st.store}
        s.fnstack.append({'name':f['name'],'this':obj,'f':f})
        try:
            st=s.bind(st,f,args)
            o=s.stmt(f['body'],st)
            isref=ptype(f['ret'])[0] in('ref','cref')
            pairs=[]
            for a,v in o.r:
                if v is None: v=VOID
                elif not isref: v=s.load(a,v)
                pairs.append((a,v))
            for a in o.n: pairs.append((a,VOID if f['ret']=='void' else None))
            for a,_ in pairs: s.unbind(a,f)
            pairs=[(a,(v if v is not None else s.frv(a,'noreturn',f['ret']))) for a,v in pairs]
            return merge_vals(pairs)
        finally:
            s.fnstack.pop()
    def call_closure(s,st,c,args):
        if 'fnref' in c.node: return s.call(st,c.node['fnref'],None,args,{'l':0})
        f=c.node['fn']
        s.fnstack.append({'name':s.fnstack[-1]['name'] if s.fnstack else 'lambda','this':c.this,'f':f})
        try:
            for k,v in (c.cap or {}).items():
                r=('v',k)
                if isinstance(v,LV):
                    if v.root!=r: st.store[r]=v
                else: st.store[r]=v
            st=s.bind(st,f,args)
            o=s.stmt(f['body'],st)
            isref=ptype(f['ret'])[0] in('ref','cref')
            pairs=[(a,VOID if v is None else (v if isref else s.load(a,v))) for a,v in o.r]+[(a,VOID) for a in o.n]
            for a,_ in pairs: s.unbind(a,f)
            return merge_vals(pairs)
        finally: s.fnstack.pop()
    # ---------------------------------------------------------------- statements
    def stmt(s,n,st):
        o=Out()
        if st.dead(): return o
        m=getattr(s,'s_'+n['k'],None)
        if m is None: raise Unsupported('stmt '+n['k']+' '+str(n.get('what','')))
        r=m(n,st)
        r.n=[x for x in r.n if not x.dead()]
        return r
    def seq(s,ns,sts):
        o=Out(); cur=sts
        for n in ns:
            nxt=[]
            for a in cur:
                r=s.stmt(n,a); o.add(r); nxt+=r.n
            cur=try_merge(nxt)
            if len(cur)>64: raise Unsupported('path explosion')
            if not cur: break
        o.n=cur; return o
    def s_Nop(s,n,st): o=Out(); o.n=[st]; return o
    def s_Expr(s,n,st):
        o=Out(); mark_=len(s.temps)
        outs=[a for a,_ in s.ev(n['e'],st)]
        while len(s.temps)>mark_:
            r,ty=s.temps.pop(); nxt=[]
            for a in outs: nxt+=s.run_dtor(a,r,ty)
            outs=nxt
        o.n=try_merge(outs); return o
    def run_dtor(s,st,root,ty):
        if root not in st.store: return [st]
        f=s.has_dtor(ty)
        if f is None: return [st]
        con=s.contracts.get(f['sig'])
        if con is not None: res=[a for a,_ in s.apply_contract(con,st,f,LV(root,(),ty),[],{'l':0})]
        else: res=[a for a,_ in s.inline(st,f,LV(root,(),ty),[])]
        for a in res: a.store.pop(root,None)
        return res
    def s_Block(s,n,st):
        decls=[]; s.collect_decls(n['b'],decls)
        dt=[(('v',v['id']),v['t']) for v in decls if s.has_dtor(v['t']) and not v.get('static')]
        if dt: s.thr.append([])
        try: o=s.seq(n['b'],[st])
        finally:
            if dt: th=s.thr.pop()
        if dt:
            for root,ty in reversed(dt):
                def run(a):
                    return s.run_dtor(a,root,ty) if root in a.store else [a]
                o.n=[b for a in o.n for b in run(a)]; o.b=[b for a in o.b for b in run(a)]; o.c=[b for a in o.c for b in run(a)]
                o.r=[(b,v) for a,v in o.r for b in run(a)]
                th=[(b,x) for a,x in th for b in run(a)]
            s.thr[-1]+=th
        for v in decls:
            if v.get('static'): continue
            r=('v',v['id'])
            for a in o.n+o.b+o.c: a.store.pop(r,None)
            for b in v.get('bindings',[]):
                for a in o.n+o.b+o.c: a.store.pop(('v',b['id']),None)
        return o
    def collect_decls(s,ns,out):
        for n in ns:
            if n['k']=='Decl': out+=n['v']
            elif n['k'] in('Case','Default','Label'): s.collect_decls([n['b']],out)
    def declare(s,v,st):
        r=('v',v['id']); t=v['t']
        if v.get('static'):
            if r not in st.store:
                st.store[r]=s.frv(st,'static_'+v['n'],t)
            return [st]
        if 'init' not in v:
            st.store[r]=s.default(st,t); return [st]
        out=[]
        for a,x in s.ev(v['init'],st):
            if ptype(t)[0] in('ref','cref'):
                a.store[r]=x if isinstance(x,LV) else x
            else:
                x=s.load(a,x)
                if isinstance(x,Pv): x=T(mkpair(pack(x.a),pack(s.read(a,x.b)),x.ty),x.ty)
                if isinstance(x,T) and kind(t) in('bool','int') and x.t.sort()!=sort(t): x=T(coerce(x.t,sort(t)),t,x.bv)
                elif isinstance(x,T) and kind(t)==kind(x.ty) and kind(t) in('int','bool'): x=T(x.t,t,x.bv)
                if isinstance(x,T) and kind(t)=='rec' and sort(t)!=Opq: x=unpack(x.t,x.ty)
                a.store[r]=x
                if isinstance(x,Obj) and t.startswith('rec:'): s.dyn[r]=t[4:]
            if v.get('bindings'): s.bind_struct(a,v,r)
            out.append(a)
        return out
    def bind_struct(s,st,v,r):
        x=st.store[r]; lv=x if isinstance(x,LV) else LV(r,(),v['t'])
        val=s.read(st,lv) if not isinstance(x,Pv) else x
        ty=strip_ref(v['t'])
        for i,b in enumerate(v['bindings']):
            if isinstance(val,Pv):
                if i==0: st.store[('v',b['id'])]=val.a
                else: st.store[('v',b['id'])]=val.b
            elif kind(ty)=='pair': st.store[('v',b['id'])]=LV(lv.root,lv.path+(('p',i),),ptype(ty)[1][i])
            elif kind(ty)=='rec':
                fk,ft=rec_fields(ptype(ty)[0][4:])[i]; st.store[('v',b['id'])]=LV(lv.root,lv.path+(('f',fk),),ft)
            else: raise Unsupported('structured binding of '+ty)
    def s_Decl(s,n,st):
        o=Out(); sts=[st]
        for v in n['v']:
            nxt=[]
            for a in sts: nxt+=s.declare(v,a)
            sts=nxt
        o.n=try_merge(sts); return o
    def s_If(s,n,st):
        o=Out(); sts=[st]
        if n.get('init'): r=s.stmt(n['init'],st); o.add(r); sts=r.n
        if n.get('cv'):
            sts=[b for a in sts for b in s.declare(n['cv'],a)]
        res=[]
        for a0 in sts:
            for a,c in s.cond(n['c'],a0):
                if not is_f(c):
                    t=a.cp() if not is_t(c) else a; t.assume(c)
                    r=s.stmt(n['a'],t); o.add(r); res+=r.n
                if not is_t(c):
                    f=a.cp() if not is_f(c) else a; f.assume(Not(c))
                    if n.get('b'): r=s.stmt(n['b'],f); o.add(r); res+=r.n
                    else: res.append(f)
        o.n=try_merge(res); return o
    def s_Return(s,n,st):
        o=Out(); mark_=len(s.temps)
        if 'e' not in n: o.r=[(st,None)]
        else:
            for a,v in s.ev(n['e'],st):
                f=s.fnstack[-1].get('f')
                if not (f and ptype(f['ret'])[0] in('ref','cref')):
                    v=s.load(a,v)
                    if f and isinstance(v,T) and kind(f['ret'])=='bool' and v.t.sort()!=B: v=T(coerce(v.t,B),'bool')
                    if isinstance(v,T) and f and v.t.sort()==Str and kind(f['ret'])=='str': v=T(v.t,'str')
                o.r.append((a,v))
        del s.temps[mark_:]
        return o
    def s_Break(s,n,st): o=Out(); o.b=[st]; return o
    def s_Continue(s,n,st): o=Out(); o.c=[st]; return o
    def s_Label(s,n,st): return s.stmt(n['b'],st)
    def s_Case(s,n,st): return s.stmt(n['b'],st)
    def s_Default(s,n,st): return s.stmt(n['b'],st)
    def s_Switch(s,n,st):
        o=Out(); sts=[st]
        if n.get('init'): r=s.stmt(n['init'],st); sts=r.n
        # flatten body
        items=[]     # ('case',expr,hi) | ('default',) | ('stmt',node)
        def flat(x):
            if x['k']=='Case': items.append(('case',x['v'],x.get('hi'))); flat(x['b'])
            elif x['k']=='Default': items.append(('default',)); flat(x['b'])
            else: items.append(('stmt',x))
        body=n['b']['b'] if n['b']['k']=='Block' else [n['b']]
        for x in body: flat(x)
        labels=[(i,it) for i,it in enumerate(items) if it[0]!='stmt']
        decls=[]; s.collect_decls([it[1] for it in items if it[0]=='stmt'],decls)
        res=[]
        # entry point -> label groups (consecutive labels share an entry)
        ends={}
        for i,it in labels:
            j=i
            while j<len(items) and items[j][0]!='stmt': j+=1
            ends[i]=j
        default=[ends[i] for i,it in labels if it[0]=='default']
        groups=[]   # (entry index, [case values])
        for i,it in labels:
            if it[0]!='case': continue
            v=int(it[1]['v']); hi=int(it[2]['v']) if it[2] else v
            if groups and groups[-1][0]==ends[i]: groups[-1][1].append((v,hi))
            else: groups.append((ends[i],[(v,hi)]))
        def run_from(a,idx):
            cur=[a]
            for it in items[idx:]:
                if it[0]!='stmt': continue
                nxt=[]
                for b in cur:
                    r=s.stmt(it[1],b); o.c+=r.c; o.r+=r.r; res.extend(r.b); nxt+=r.n
                cur=try_merge(nxt)
                if not cur: break
            res.extend(cur)
        for a0 in sts:
            for a,v in s.rv(n['c'],a0):
                def test(v_):
                    lo,hi=v_
                    if lo==hi: return s.equal(a,v,mkint(lo,v.ty)) if not isinstance(v,T) or v.t.sort()!=B else s.equal(a,T(coerce(v.t,I),'i32'),mkint(lo))
                    return z3.And(v.t>=lo,v.t<=hi)
                cur=a
                done=False
                for entry,vals in groups:
                    if default and entry==default[0]: continue
                    c=Or(*[test(x) for x in vals])
                    if is_f(c): continue
                    t=cur.cp(); t.assume(c)
                    if not t.dead(): run_from(t,entry)
                    if is_t(c): done=True; break
                    cur=cur.cp(); cur.assume(Not(c))
                if done: continue
                if default: run_from(cur,default[0])
                else: res.append(cur)
        o.n=try_merge(res)
        for v in decls:
            for a in o.n+o.c: a.store.pop(('v',v['id']),None)
        return o
    def s_Try(s,n,st):
        o=Out(); s.thr.append([])
        try: r=s.stmt(n['b'],st)
        finally: th=s.thr.pop()
        o.add(r); res=list(r.n)
        for a,x in th:
            caught=False
            for h in n['h']:
                if 't' not in h or x.ty=='?' or exc_matches(x.ty,h['t']):
                    if 'v' in h: a.store[('v',h['v']['id'])]=x.val if x.val is not None else Raw(h['t'])
                    old=getattr(s,'curexc',None); s.curexc=x
                    r2=s.stmt(h['b'],a); s.curexc=old
                    if 'v' in h:
                        for b in r2.n+r2.b+r2.c: b.store.pop(('v',h['v']['id']),None)
                    o.add(r2); res+=r2.n; caught=True; break
            if not caught: s.thr[-1].append((a,x))
        o.n=try_merge(res); return o
    # loops are in loops.py
    def s_While(s,n,st):
        import loops
        def it(h):
            o=Out(); ex=[]; back=[]
            if n.get('cv'): hs=s.declare(n['cv'],h)
            else: hs=[h]
            for h2 in hs:
                for a,c in s.cond(n['c'],h2):
                    if not is_t(c): f=a.cp(); f.assume(Not(c)); ex.append(f)
                    if not is_f(c):
                        t=a.cp(); t.assume(c); r=s.stmt(n['b'],t); o.r+=r.r; o.b+=r.b; back+=r.n+r.c
            return ex,back,o
        return loops.run(s,n,st,it)
    def s_Do(s,n,st):
        import loops
        def it(h):
            o=Out(); ex=[]; back=[]
            r=s.stmt(n['b'],h); o.r+=r.r; o.b+=r.b
            for a0 in try_merge(r.n+r.c):
                for a,c in s.cond(n['c'],a0):
                    if not is_t(c): f=a.cp(); f.assume(Not(c)); ex.append(f)
                    if not is_f(c): t=a.cp(); t.assume(c); back.append(t)
            return ex,back,o
        return loops.run(s,n,st,it)
    def s_For(s,n,st):
        import loops
        o=Out(); sts=[st]; decls=[]
        if n.get('init'):
            if n['init']['k']=='Decl': decls=n['init']['v']
            r=s.stmt(n['init'],st); sts=r.n
        def it(h):
            o=Out(); ex=[]; back=[]
            cs=s.cond(n['c'],h) if n.get('c') else [(h,TRUE)]
            for a,c in cs:
                if not is_t(c): f=a.cp(); f.assume(Not(c)); ex.append(f)
                if not is_f(c):
                    t=a.cp(); t.assume(c); r=s.stmt(n['b'],t); o.r+=r.r; o.b+=r.b
                    for b in try_merge(r.n+r.c):
                        if n.get('inc'): back+=[x for x,_ in s.ev(n['inc'],b)]
                        else: back.append(b)
            return ex,back,o
        for a in sts:
            r=loops.run(s,n,a,it); o.add(r); o.n+=r.n
        for v in decls:
            for a in o.n: a.store.pop(('v',v['id']),None)
        o.n=try_merge(o.n); return o
    def s_RangeFor(s,n,st):
        import loops
        o=Out()
        cty=strip_ref(n['rt'])
        hid=('it',n['v']['id'])
        for a,c in s.ev(n['r'],st):
            c0=c
            if not isinstance(c,LV): c=s.temp(a,c,cty)
            v0=s.load(a,c)
            if isinstance(v0,T) and v0.ty!=cty and kind(v0.ty)!=kind(cty): raise Unsupported('range type')
            if kind(cty)=='arr': raise Unsupported('range over array')
            a.store[hid]=s.it_begin(a,c,cty,False)
            v=n['v']; r=('v',v['id']); vt=n['vt']
            def it(h):
                o=Out(); ex=[]; back=[]
                i=h.store[hid]
                s.check_snap(h,i)
                end=i.end if i.kind=='key' else Eq(i.pos,s.seqlen(h,i))
                f=h.cp(); f.assume(end); ex.append(f)
                t=h.cp(); t.assume(Not(end))
                if t.dead(): return ex,back,o
                d=s.deref(t,i)
                if ptype(vt)[0] in('ref','cref'): t.store[r]=d
                else:
                    d=s.load(t,d)
                    if isinstance(d,Pv): d=T(mkpair(pack(d.a),pack(s.read(t,d.b)),d.ty),d.ty)
                    if isinstance(d,T) and kind(d.ty)=='rec' and sort(d.ty)!=Opq: d=unpack(d.t,d.ty); s.dyn[r]=d.ty[4:]
                    t.store[r]=d
                if v.get('bindings'): s.bind_struct(t,v,r)
                rr=s.stmt(n['b'],t); o.r+=rr.r; o.b+=rr.b
                for b in try_merge(rr.n+rr.c):
                    b.store.pop(r,None)
                    for x in v.get('bindings',[]): b.store.pop(('v',x['id']),None)
                    s.check_snap(b,i)
                    b.store[hid]=s.it_advance(b,b.store[hid],1); back.append(b)
                for b in o.b: b.store.pop(r,None)
                return ex,back,o
            rr=loops.run(s,n,a,it); o.add(rr)
            for b in rr.n: b.store.pop(hid,None)
            o.n+=rr.n
        o.n=try_merge(o.n); return o
    # ---------------------------------------------------------------- iterators
    def it_begin(s,st,clv,cty,rev=False):
        cty=strip_ref(cty); k=kind(cty)
        if k in('set','map'):
            C=s.contset(st,clv,cty); ks=C.sort().domain()
            cur=fresh('cur',ks); end=fresh('end',B); x=z3.Const('x!b',ks)
            lt=order(ks,rev)
            f=[Implies(Not(end),Select(C,cur))]
            if z3.is_K(C): f.append(end if is_f(C.arg(0)) else Not(end))
            else: f.append(FAC(x,C,Implies(end,Not(Select(C,x)))))
            if lt is not None and not z3.is_K(C): f.append(FAC(x,C,Implies(Select(C,x),z3.Or(end,x==cur,lt(cur,x)))))
            for y in f: deffact(cur,y); deffact(end,y)
            return It('key',clv,cty,rev,V=emptyset(ks),cur=cur,end=end,snap=C)
        if k in('vec','str','cstr'):
            return It('idx',clv,cty,rev,pos=z3.IntVal(0),end=None,snap=None)
        raise Unsupported('iterate over '+cty)
    def it_end(s,st,clv,cty,rev=False):
        cty=strip_ref(cty); k=kind(cty)
        if k in('set','map'):
            C=s.contset(st,clv,cty); return It('key',clv,cty,rev,V=C,cur=fresh('cur',C.sort().domain()),end=TRUE,snap='END')
        c=s.load(st,clv) if isinstance(clv,LV) else clv
        return It('idx',clv,cty,rev,pos=(strlen(c.t) if k in('str','cstr') else vlen(c.t,cty)),end=None,snap='END')
    def it_advance(s,st,it,d):
        if it.kind=='idx':
            p=z3.simplify(it.pos+d); n=it.cp(pos=p); n.snap=None; return n
        if d!=1: raise Unsupported('-- on set iterator')
        s.check_snap(st,it)
        C=it.snap if not isinstance(it.snap,str) else s.contset(st,it.clv,it.cty)
        V2=z3.Store(it.V,it.cur,TRUE); cur=fresh('cur',it.cur.sort()); end=fresh('end',B)
        for f in s.it_facts(C,V2,cur,end,it.rev): deffact(cur,f); deffact(end,f)
        return it.cp(V=V2,cur=cur,end=end,snap=C)
    def it_facts(s,C,V,cur,end,rev):
        x=z3.Const('x!b',cur.sort()); lt=order(cur.sort(),rev)
        inC=lambda y: Select(C,y) if z3.is_store(C) or z3.is_K(C) else z3.Select(C,y)
        fs=[Implies(Not(end),And(inC(cur),Not(z3.Select(V,cur)))),
            FAC(x,C,z3.Implies(z3.And(end,inC(x)),z3.Select(V,x)),*[z3.Select(l,x) for l in leaves_of(V)])]
        if lt is not None: fs.append(FAC(x,C,z3.Implies(z3.And(z3.Not(end),inC(x)),z3.Select(V,x)==lt(x,cur)),*[z3.Select(l,x) for l in leaves_of(V)]))
        return fs

NULLP=z3.Const('NULLP',Opq)
def core_arr0(ty): return z3.Const('arr0_'+mangle(ptype(ty)[1][0]),z3.ArraySort(I,sort(ptype(ty)[1][0])))
def core_val0(ty): return z3.Const('val0_'+mangle(ty),z3.ArraySort(sort(ptype(ty)[1][0]),sort(ptype(ty)[1][1])))
def order(ks,rev):
    if ks==Str: f=slt
    elif ks==I: f=lambda a,b:a<b
    else: return None
    return (lambda a,b:f(b,a)) if rev else f
def wrapadd(a,b,n):
    if isint(b) and b.as_long()==2**n-1: a,b=b,a
    if isint(a) and a.as_long()==2**n-1: return Ite(Eq(b,z3.IntVal(0)),a,b-1)
    x=a+b
    if isint(a) or isint(b): x=z3.simplify(x)
    return Ite(x<2**n,x,x-2**n)
def cstr_next(t):
    if t.decl().eq(ssub) and isint(t.arg(1)): return ssub(t.arg(0),z3.IntVal(t.arg(1).as_long()+1),t.arg(2))
    return ssub(t,z3.IntVal(1),slen(t))
import core as _c
_c.NULLP=NULLP
