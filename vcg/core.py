"""Terms, sorts, values and symbolic states of the C++ verification-condition generator."""
import re, functools
import z3

B=z3.BoolSort(); I=z3.IntSort(); R_=z3.RealSort()
Str=z3.DeclareSort('Str'); Opq=z3.DeclareSort('Opq')
TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)
class Unsupported(Exception): pass

# ---------------------------------------------------------------- C++ type strings
@functools.lru_cache(None)
def ptype(s):
    """'std::map(str,rec:x)' -> ('std::map',[..]) ; atoms -> (name,[])"""
    if s.startswith('other:'): return (s,())
    i=s.find('(')
    if i<0: return (s,())
    name=s[:i]; d=0; cur=''; args=[]
    for c in s[i+1:]:
        if c==')' and d==0: break
        if c=='(' : d+=1
        if c==')' : d-=1
        if c==',' and d==0: args.append(cur); cur=''; continue
        cur+=c
    args.append(cur)
    return (name,tuple(args))
def strip_ref(t):
    n,a=ptype(t)
    return a[0] if n in('ref','cref') else t
VEC={'std::vector','std::list','std::__cxx11::list','std::deque'}
SET={'std::set','std::unordered_set'}
MAP={'std::map','std::unordered_map'}
def kind(t):
    n,a=ptype(t)
    if n in('ref','cref'): return kind(a[0])
    if n=='bool': return 'bool'
    if n=='char' or n.startswith('enum:') or re.match(r'^[iu]\d+$',n): return 'int'
    if n=='float': return 'float'
    if n=='str': return 'str'
    if n=='ptr': return 'cstr' if a[0]=='char' else 'ptr'
    if n=='arr': return 'cstr' if a[0]=='char' else 'arr'
    if n in VEC: return 'vec'
    if n in SET: return 'set'
    if n in MAP: return 'map'
    if n=='std::pair': return 'pair'
    if n.startswith('rec:'): return 'rec'
    if n=='void': return 'void'
    if 'iterator' in n: return 'iter'
    return 'opaque'
def unsigned_bits(t):
    m=re.match(r'^u(\d+)$',t); return int(m.group(1)) if m else 0
def signed_bits(t):
    m=re.match(r'^i(\d+)$',t); return int(m.group(1)) if m else (8 if t=='char' else 0)

# ---------------------------------------------------------------- program database (records)
RECORDS={}     # name -> record json
ENUMS={}
OPAQUE_RECS=set()
def rec_fields(name):
    """all fields of a record including its bases: [(key, type)], key = owner::field"""
    r=RECORDS.get(name)
    if r is None: return None
    out=[]
    for b in r['bases']:
        bn=b[4:] if b.startswith('rec:') else b
        sub=rec_fields(bn)
        if sub: out+=sub
    out+=[(name+'::'+f['n'],f['t']) for f in r['fields']]
    return out
def is_subclass(a,b):
    if a==b: return True
    r=RECORDS.get(a)
    return bool(r) and any(is_subclass(x[4:],b) for x in r['bases'] if x.startswith('rec:'))
_sorts={}; DT={}
def mangle(t): return re.sub(r'[^A-Za-z0-9_]','_',t)
def sort(t):
    t=strip_ref(t)
    if t in _sorts: return _sorts[t]
    k=kind(t); n,a=ptype(t)
    if k=='bool': s=B
    elif k=='int': s=I
    elif k=='float': s=R_
    elif k in('str','cstr'): s=Str
    elif k=='set': s=z3.ArraySort(sort(a[0]),B)
    elif k=='vec':
        d=z3.Datatype('Vec_'+mangle(a[0])); d.declare('mkv_'+mangle(a[0]),('len_'+mangle(a[0]),I),('arr_'+mangle(a[0]),z3.ArraySort(I,sort(a[0])))); s=d.create(); DT[s.name()]=('vec',t)
    elif k=='map':
        m=mangle(t); d=z3.Datatype('Map_'+m); d.declare('mkm_'+m,('dom_'+m,z3.ArraySort(sort(a[0]),B)),('val_'+m,z3.ArraySort(sort(a[0]),sort(a[1])))); s=d.create()
    elif k=='pair':
        m=mangle(t); d=z3.Datatype('P_'+m); d.declare('mkp_'+m,('fst_'+m,sort(a[0])),('snd_'+m,sort(a[1]))); s=d.create()
    elif k=='rec' and rec_fields(n[4:]) is not None and n[4:] not in OPAQUE_RECS and rec_fields(n[4:]):
        m=mangle(t); d=z3.Datatype('R_'+m); d.declare('mkr_'+m,*[(mangle(f),sort(ft)) for f,ft in rec_fields(n[4:])]); s=d.create()
    else: s=Opq
    _sorts[t]=s
    return s

# ---------------------------------------------------------------- fresh constants
_n=[0]; SERIAL={}; DEFS={}     # DEFS: const id name -> pointwise definition (python fn x->formula)
def fresh(base,s):
    _n[0]+=1; nm='%s!%d'%(base,_n[0]); c=z3.Const(nm,s); SERIAL[nm]=_n[0]; return c
def mark(): return _n[0]

# ---------------------------------------------------------------- light simplification
def is_t(x): return z3.is_true(x)
def is_f(x): return z3.is_false(x)
def And(*xs):
    out=[]
    for x in xs:
        if isinstance(x,(list,tuple)): x=And(*x)
        if is_t(x): continue
        if is_f(x): return FALSE
        if z3.is_and(x): out+=x.children()
        else: out.append(x)
    if not out: return TRUE
    return out[0] if len(out)==1 else z3.And(*out)
def Or(*xs):
    out=[]
    for x in xs:
        if isinstance(x,(list,tuple)): x=Or(*x)
        if is_f(x): continue
        if is_t(x): return TRUE
        out.append(x)
    if not out: return FALSE
    return out[0] if len(out)==1 else z3.Or(*out)
def Not(x):
    if is_t(x): return FALSE
    if is_f(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a,b):
    if is_f(a) or is_t(b): return TRUE
    if is_t(a): return b
    return z3.Implies(a,b)
def Ite(c,a,b):
    if is_t(c): return a
    if is_f(c): return b
    if a.eq(b): return a
    if a.sort()==B:
        if is_t(a) and is_f(b): return c
        if is_f(a) and is_t(b): return Not(c)
        if is_t(a): return Or(c,b)
        if is_f(a): return And(Not(c),b)
        if is_t(b): return Or(Not(c),a)
        if is_f(b): return And(c,a)
    return z3.If(c,a,b)
def isint(x): return z3.is_int_value(x)
def Eq(a,b):
    if a.eq(b): return TRUE
    if isint(a) and isint(b): return z3.BoolVal(a.as_long()==b.as_long())
    if a.sort()==B:
        if is_t(a): return b
        if is_t(b): return a
        if is_f(a): return Not(b)
        if is_f(b): return Not(a)
    if a.sort()==Str:
        la,lb=lit_of(a),lit_of(b)
        if la is not None and lb is not None: return z3.BoolVal(la==lb)
    return a==b
def Select(a,i):
    # read-over-write with syntactic keys
    while True:
        if z3.is_store(a):
            k=a.arg(1)
            if k.eq(i): return a.arg(2)
            if (isint(k) and isint(i)): a=a.arg(0); continue
            lk,li=(lit_of(k),lit_of(i)) if k.sort()==Str else (None,None)
            if lk is not None and li is not None and lk!=li: a=a.arg(0); continue
            break
        if z3.is_K(a): return a.arg(0)
        break
    return z3.Select(a,i)
def acc(s,idx,t):
    """datatype accessor with constructor folding"""
    if t.decl().eq(s.constructor(0)) : return t.arg(idx)
    if z3.is_app_of(t,z3.Z3_OP_ITE): return Ite(t.arg(0),acc(s,idx,t.arg(1)),acc(s,idx,t.arg(2)))
    return s.accessor(0,idx)(t)

# ---------------------------------------------------------------- strings
slen=z3.Function('slen',Str,I); sat_=z3.Function('sat',Str,I,I); scat=z3.Function('scat',Str,Str,Str)
ssub=z3.Function('ssub',Str,I,I,Str); schr=z3.Function('schr',I,Str); slt=z3.Function('slt',Str,Str,B)
sfindc=z3.Function('sfindc',Str,I,I,I); srfindc=z3.Function('srfindc',Str,I,I); sfind=z3.Function('sfind',Str,Str,I,I)
stail=z3.Function('stail',Str,Str,Str); shead=z3.Function('shead',Str,Str,Str); supd=z3.Function('supd',Str,I,I,Str)
itos_=z3.Function('itos',I,Str); satoi=z3.Function('satoi',Str,I); sctrim=z3.Function('sctrim',Str,Str)
NULLSTR=z3.Const('NULLSTR',Str)
NPOS=2**64-1
_lits={}
def lit(s):
    if s not in _lits: _lits[s]=z3.Const('lit%d_%s'%(len(_lits),re.sub(r'[^A-Za-z0-9]','_',s)[:24]),Str)
    return _lits[s]
_litrev={}
def lit_of(t):
    if t.num_args()==0 and t.decl().name().startswith('lit'):
        for k,v in _lits.items():
            if v.eq(t): return k
    return None
def parts(t):
    if t.decl().eq(scat): return parts(t.arg(0))+parts(t.arg(1))
    return [t]
def cat(a,b):
    ps=parts(a)+parts(b); out=[]
    for p in ps:
        l=lit_of(p)
        if l=='' : continue
        if l is not None and out and lit_of(out[-1]) is not None: out[-1]=lit(lit_of(out[-1])+l)
        else: out.append(p)
    if not out: return lit('')
    r=out[-1]
    for p in reversed(out[:-1]): r=scat(p,r)
    return r
def strlen(t):
    l=lit_of(t)
    if l is not None: return z3.IntVal(len(l))
    return slen(t)
def strat(t,i):
    l=lit_of(t)
    if l is not None and isint(i):
        k=i.as_long()
        return z3.IntVal(ord(l[k]) if 0<=k<len(l) else 0)
    return sat_(t,i)
def sempty(t):
    l=lit_of(t)
    if l is not None: return z3.BoolVal(l=='')
    return slen(t)==0

# ---------------------------------------------------------------- values
class T:
    __slots__=('t','ty','bv')
    def __init__(s,t,ty,bv=None): s.t=t; s.ty=ty; s.bv=bv
    def __repr__(s): return 'T(%s:%s)'%(s.t,s.ty)
class Obj:
    __slots__=('ty','f')
    def __init__(s,ty,f): s.ty=ty; s.f=f
    def __repr__(s): return 'Obj(%s)'%s.ty
class LV:            # reference / non-null pointer to an lvalue
    __slots__=('root','path','ty')
    def __init__(s,root,path=(),ty=None): s.root=root; s.path=tuple(path); s.ty=ty
    def __repr__(s): return 'LV(%s%s)'%(s.root,list(s.path))
    def f(s,name,ty): return LV(s.root,s.path+(('f',name),),ty)
class Ptr:           # pointer value: lv or None(null)
    __slots__=('lv','ty','null')
    def __init__(s,lv,ty,null=None): s.lv=lv; s.ty=ty; s.null=null   # null: z3 Bool "is null" (None = never, when lv set)
class It:
    """iterator: kind 'key' over sets/maps (visited set V, current key cur, at-end flag end) or 'idx' over sequences"""
    __slots__=('kind','clv','cty','rev','V','cur','pos','end','snap')
    def __init__(s,kind,clv,cty,rev=False,V=None,cur=None,pos=None,end=None,snap=None):
        s.kind=kind; s.clv=clv; s.cty=cty; s.rev=rev; s.V=V; s.cur=cur; s.pos=pos; s.end=end; s.snap=snap
    def cp(s,**kw):
        n=It(s.kind,s.clv,s.cty,s.rev,s.V,s.cur,s.pos,s.end,s.snap)
        for k,v in kw.items(): setattr(n,k,v)
        return n
class Clo:
    __slots__=('node','cap','this')
    def __init__(s,node,cap,this): s.node=node; s.cap=cap; s.this=this
class Stream:        # immutable description, mutable parts live in ghost fields as terms
    __slots__=('kind','f')
    def __init__(s,kind,f): s.kind=kind; s.f=f
class Raw:           # opaque
    __slots__=('ty','t')
    def __init__(s,ty,t=None): s.ty=ty; s.t=t if t is not None else fresh('opq',Opq)
VOID=T(TRUE,'void')

def same(a,b):
    if a is b: return True
    if type(a)!=type(b): return False
    if isinstance(a,T): return a.t.sort()==b.t.sort() and a.t.eq(b.t)
    if isinstance(a,Obj): return a.f.keys()==b.f.keys() and all(same(a.f[k],b.f[k]) for k in a.f)
    if isinstance(a,LV): return a.root==b.root and a.path==b.path
    if isinstance(a,Ptr):
        if (a.null is None)!=(b.null is None): return False
        if a.null is not None and not a.null.eq(b.null): return False
        return (a.lv is None)==(b.lv is None) and (a.lv is None or same(a.lv,b.lv))
    if isinstance(a,It):
        def e(x,y): return (x is None and y is None) or (x is not None and y is not None and x.eq(y))
        return a.kind==b.kind and e(a.V,b.V) and e(a.cur,b.cur) and e(a.pos,b.pos) and e(a.end,b.end) and same(a.clv,b.clv)
    if isinstance(a,Raw): return a.t.eq(b.t)
    if isinstance(a,Stream): return a.kind==b.kind and a.f.keys()==b.f.keys() and all(same(a.f[k],b.f[k]) for k in a.f)
    return False

def const(term,ty): return T(term,ty)
def mkint(v,ty='i32'): return T(z3.IntVal(int(v)),ty)
def mkbool(v): return T(z3.BoolVal(bool(v)) if isinstance(v,bool) else v,'bool')
def mkstr(s): return T(lit(s),'str')

def pack(v):
    """value -> z3 term"""
    if isinstance(v,T): return v.t
    if isinstance(v,Obj):
        s=sort(v.ty)
        if s==Opq: return fresh('opq',Opq)
        fs=rec_fields(ptype(v.ty)[0][4:])
        return s.constructor(0)(*[coerce(pack(v.f[k]),sort(ft)) for k,ft in fs])
    if isinstance(v,Raw): return v.t
    if isinstance(v,Ptr): return fresh('ptr',Opq)
    if isinstance(v,Stream): return fresh('stream',Opq)
    raise Unsupported('pack %s'%type(v).__name__)
def coerce(t,s):
    if t.sort()==s: return t
    if t.sort()==B and s==I: return Ite(t,z3.IntVal(1),z3.IntVal(0))
    if t.sort()==I and s==B: return Not(Eq(t,z3.IntVal(0)))
    if t.sort()==I and s==R_: return z3.ToReal(t)
    raise Unsupported('coerce %s to %s'%(t.sort(),s))
def unpack(t,ty):
    n=ptype(ty)[0][4:]; s=sort(ty); fs=rec_fields(n)
    return Obj(ty,{k:T(acc(s,i,t),ft) for i,(k,ft) in enumerate(fs)})
def fresh_val(base,ty):
    ty=strip_ref(ty); k=kind(ty)
    if k=='rec' and sort(ty)!=Opq: return Obj(ty,{f:fresh_val(base+'.'+f.split('::')[-1],ft) for f,ft in rec_fields(ptype(ty)[0][4:])})
    s=sort(ty)
    if s==Opq: return Raw(ty,fresh(base,Opq))
    return T(fresh(base,s),ty)
def vlen(v,ty): return acc(sort(ty),0,v)
def varr(v,ty): return acc(sort(ty),1,v)
def mkvec(n,a,ty): return sort(ty).constructor(0)(n,a)
def mdom(v,ty): return acc(sort(ty),0,v)
def mval(v,ty): return acc(sort(ty),1,v)
def mkmap(d,v,ty): return sort(ty).constructor(0)(d,v)
def pfst(v,ty): return acc(sort(ty),0,v)
def psnd(v,ty): return acc(sort(ty),1,v)
def mkpair(a,b,ty): return sort(ty).constructor(0)(a,b)
_card={}
def card(s):
    k=s.sort().domain(); nm='card_'+mangle(str(k))
    if nm not in _card: _card[nm]=z3.Function(nm,z3.ArraySort(k,B),I)
    return _card[nm](s)
def emptyset(s): return z3.K(s,FALSE)

# ---------------------------------------------------------------- state
class St:
    __slots__=('store','ghost','pc','track','nd','lastpc')
    def __init__(s): s.store={}; s.ghost={}; s.pc=[]; s.track=(); s.nd=0; s.lastpc=None
    def cp(s):
        n=St(); n.store=dict(s.store); n.ghost=dict(s.ghost); n.pc=list(s.pc); n.track=s.track; n.nd=s.nd; n.lastpc=s.lastpc; return n
    def assume(s,*fs):
        for f in fs:
            if isinstance(f,(list,tuple)): s.assume(*f); continue
            if is_t(f): continue
            s.pc.append(f)
    def dead(s):
        n=s.nd
        if n>len(s.pc) or (n and s.pc[n-1] is not s.lastpc): n=0      # the list was replaced
        if any(is_f(s.pc[i]) for i in range(n,len(s.pc))): return True
        s.nd=len(s.pc); s.lastpc=s.pc[-1] if s.pc else None; return False

# ---------------------------------------------------------------- quantifiers with usable triggers
def pat_ok(t):
    seen=set(); st=[t]
    while st:
        u=st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u): return False
        k=u.decl().kind() if z3.is_app(u) else None
        if k in(z3.Z3_OP_ITE,z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_NOT,z3.Z3_OP_EQ,z3.Z3_OP_IMPLIES,z3.Z3_OP_TRUE,z3.Z3_OP_FALSE) : return False
        st+=u.children()
    return True
def leaves_of(C):
    if z3.is_app_of(C,z3.Z3_OP_ITE): return leaves_of(C.arg(1))+leaves_of(C.arg(2))
    if z3.is_store(C): return leaves_of(C.arg(0))
    if z3.is_K(C): return []
    if C.num_args()==1 and z3.is_app_of(C.arg(0),z3.Z3_OP_ITE):      # accessor of an ite
        a=C.arg(0); return leaves_of(C.decl()(a.arg(1)))+leaves_of(C.decl()(a.arg(2)))
    return [C] if pat_ok(C) else []
def FAC(x,C,body,*extra):
    """forall x. body, triggered by membership tests in (the leaves of) C and by the extra terms"""
    ps=[z3.Select(l,x) for l in {str(l):l for l in leaves_of(C)}.values()]+[e for e in extra if pat_ok(e)]
    if is_t(body): return TRUE
    if not ps: return z3.ForAll([x],body)
    return z3.ForAll([x],body,patterns=ps)
