"""C19: every repository entry is built from its own stanza."""
from contracts.base import *
from contracts.common import RT
from contracts.records import fld
from contracts.lists import line, VS
from contracts.load import tag, tail, strtoul, depname, depdate, as_time, BIG, DP
from loops import get
import loops
DV='std::vector(rec:cards::DirUrl)'; DT='rec:cards::DirUrl'; CT='rec:cards::cache'; MP='m_listOfPackages'
MACH=z3.Const('MACHINE',Str)
over('C19',Con('getMachineType()',post=lambda c:[('the machine',Eq(c.ret.t,MACHINE()))],mods=(),throws=False,trusted='the machine name reported by uname does not change'))
def MACHINE(): return MACH
O=ord
def cat(*x):
    r=x[0]
    for y in x[1:]: r=core.cat(r,y) if hasattr(core,'cat') else lib.cat(r,y)
    return r
TS=dict(m_version=O('V'),m_arch=O('a'),m_description=O('D'),m_url=O('U'),m_contributors=O('C'),m_maintainer=O('M'),m_packager=O('P'),m_license=O('L'),m_group=O('g'),m_nls=O('n'),m_hash=O('H'),m_signature=O('I'),m_collection=O('c'))
TN=dict(m_release=('r',lambda t: lib.satoi(t)%z3.IntVal(2**16)),m_space=('S',lambda t: z3.If(lib.satoi(t)>=0,lib.satoi(t),lib.satoi(t)+2**32)),m_build=('B',lambda t: as_time(strtoul(t))),m_size=('i',lambda t: z3.If(lib.satoi(t)>=0,lib.satoi(t),lib.satoi(t)+2**64)))
TL=dict(m_libs=O('l'),m_alias=O('A'),m_sets=O('s'),m_categories=O('T'),m_conflicts=O('o'))
DEFAULTED=('m_origin','m_dirName')          # from the collection's configuration only
NEVER=('m_branch','m_system')               # no tag: at their default
ALL=list(TS)+list(TN)+list(TL)+['m_dependencies','m_fileName','m_baseName']+list(DEFAULTED)+list(NEVER)
LOCAL=['name']+list(TL)+['m_dependencies']
def fsort(f): return I if f in TN else sort('std::set(str)') if f in TL else sort('std::set(%s)'%DP) if f=='m_dependencies' else Str
# V(f) applied to (lines, directory, k): what the current stanza has said about f in the lines before k
def V(f): return z3.Function('stz_'+f,sort(VS),sort(DT),I,fsort(f))
OPEN=z3.Function('stz_open',sort(VS),I,B)   # a stanza is open before line k
HDR=lit('.cards-')
def header(l): return And(tag(l)==O('@'),core.sfind(l,HDR,z3.IntVal(0))!=lib.NPOS)
def d_(d,f): return fld(d,DT,f)
def dirname(d): return cat(d_(d,'depot'),lit('/'),d_(d,'collection'))
def index(d): return cat(dirname(d),lit('/.REPO'))
def start(f,l,d,ver):
    if f=='m_fileName': return tail(l)
    if f=='m_dirName': return dirname(d)
    if f=='m_collection': return d_(d,'collection')
    if f=='m_origin': return cat(d_(d,'url'),lit('/'),MACH,lit('/'),ver,lit('/'),d_(d,'collection'))
    if f in TN: return z3.IntVal(0)
    if f in TL: return emptyset(Str)
    if f=='m_dependencies': return emptyset(sort(DP))
    return lit('')
def said(f,l,old,name):
    """what the stanza has said about f after the line l, which is not a header"""
    t=tag(l)
    if f=='name': return z3.If(t==O('N'),tail(l),old)
    if f in TS: return z3.If(t==TS[f],tail(l),old)
    if f in TN: return z3.If(t==O(TN[f][0]),TN[f][1](tail(l)),old)
    if f in TL: return z3.If(t==TL[f],z3.Store(old,tail(l),TRUE),old)
    if f=='m_dependencies': return z3.If(And(t==O('R'),slen(l)>14),z3.Store(old,mkpair(depname(l),depdate(l),DP),TRUE),old)
    if f=='m_baseName': n=slen(name)-slen(l); return z3.If(Or(t==O('g'),t==O('n')),lib.ssub_(name,z3.IntVal(0),z3.If(n<0,n+z3.IntVal(2**64),n)),old)
    return old
def after(f,L,d,q,ver):
    """V(f) at q+1, by definition"""
    l=line(L,q); return z3.If(header(l),start(f,l,d,ver) if f!='name' else lit(''),said(f,l,V(f)(L,d,q),V('name')(L,d,q)))
def open_after(L,q): l=line(L,q); return z3.If(header(l),TRUE,z3.If(slen(l)==0,FALSE,OPEN(L,q)))
# REG(name,entry): some stanza of some configured index, closed by an empty line, says exactly this
def REG(n,e): return z3.Function('stanza_says',Str,sort(CT),B)(n,e)
def own(e,L,d,q):
    u=lambda f: fld(e,CT,f)
    out=[]
    for f in ALL:
        eq=u(f)==(lit('') if f in NEVER else V(f)(L,d,q))
        if f=='m_collection': eq=Or(eq,And(V(f)(L,d,q)==lit(''),V('m_baseName')(L,d,q)!=lit('')))   # takes the collection of its main package
        out.append(eq)
    return And(*out)
def intro(m,ty,L,d,q,among):
    """REG holds for what the stanza closed at line q says (an instance of its definition)"""
    n=V('name')(L,d,q); e=z3.Select(mval(m,ty),n); return Implies(And(among,0<=q,q<vlen(L,VS),OPEN(L,q),slen(line(L,q))==0,own(e,L,d,q)),REG(n,e))
def entry(ex,st,this,args):
    ex.rpd=ex.read(st,this.f('cards::pkgrepo::m_config','rec:cards::conf').f('cards::conf::m_dirUrl',DV)).t; ex.rpv=ex.read(st,this.f('cards::pkgrepo::m_config','rec:cards::conf').f('cards::conf::m_version','str')).t
    st.assume(vlen(ex.rpd,DV)>=0)
def its(st,h):
    out=[]
    for r,v in h.store.items():
        for p,x in loops.leaves(v):
            if isinstance(x,It) and x.kind=='idx': out.append((('l',r,p),x))
    return out
def hints(ex,st,h,mods):
    out=[]; n,=qs('n'); FL=ex.g(st,'fs_lines',lib.gsort('fs_lines')); ver=ex.rpv; dp=[x.pos for l,x in its(st,h) if spec.strip_ref(x.cty)==DV]; tb=[l for l in mods if l[0]=='l' and isinstance(get(h,l),T) and get(h,l).ty and spec.strip_ref(get(h,l).ty)=='std::map(str,rec:cards::cache)']
    cur=[l for l,x in its(st,h) if spec.strip_ref(x.cty)==VS and l in mods]
    if not dp: return out
    dpos=dp[0]; d=z3.Select(varr(ex.rpd,DV),dpos); L=terms.sel(FL,index(d)); among=And(0<=dpos,dpos<vlen(ex.rpd,DV))
    if not cur:
        for l in tb: ty=get(h,l).ty; out.append(('every entry comes from one stanza',lambda v,m,l=l,ty=ty: fa([n],Implies(z3.Select(mdom(v[l],ty),n),REG(n,z3.Select(mval(v[l],ty),n))),z3.Select(mdom(v[l],ty),n))))
        return out
    c=cur[0]
    def at(f,v,m):
        if m=='step': return after(f,L,d,v[c]-1,ver)
        return V(f)(L,d,v[c])
    def op(v,m): return FALSE if m=='init' else open_after(L,v[c]-1) if m=='step' else OPEN(L,v[c])
    H=lambda f: f
    for l in tb:
        ty=get(h,l).ty
        def F(v,m,l=l,ty=ty):
            g=fa([n],Implies(z3.Select(mdom(v[l],ty),n),REG(n,z3.Select(mval(v[l],ty),n))),z3.Select(mdom(v[l],ty),n))
            return Implies(intro(v[l],ty,L,d,v[c]-1,among),g) if m=='step' else g
        out.append(('every entry comes from one stanza',F))
    for l in mods:
        y=get(h,l)
        if l[0]!='l' or not isinstance(y,T) or l==c: continue
        f=str(l[2][-1][-1]).split('::')[-1] if l[2] else None
        if f in ALL: out.append(('%s is what the stanza said'%f,lambda v,m,l=l,f=f: TRUE if m=='init' else Implies(op(v,m),v[l]==at(f,v,m)) if f not in TL and f!='m_dependencies' else Implies(op(v,m),TRUE)))
        elif not l[2]:
            if y.t.sort()==B: out.append(('a stanza is open (%s)'%str(l[1]),lambda v,m,l=l: v[l]==op(v,m)))
            else:
                for g in LOCAL:
                    if fsort(g)==y.t.sort(): out.append(('%s holds %s of the stanza'%(l[1],g),lambda v,m,l=l,g=g: TRUE if m=='init' else FALSE if m=='step' and g!='name' and not touches(v[l],g) else Implies(op(v,m),v[l]==at(g,v,m))))
    return out
def touches(t,g):
    from contracts.load import grows
    return grows(t,O('R') if g=='m_dependencies' else TL[g])
def same(c): return Eq(c.o(MP).t,c.n(MP).t)
def post(c):
    n,=qs('n'); m=c.n(MP); z=Eq(mdom(c.o(MP).t,m.ty),emptyset(Str))
    return [('an index that is loaded stays',Implies(Not(z),same(c))),('every entry comes from one stanza of a configured index',Implies(z,fa([n],Implies(z3.Select(mdom(m.t,m.ty),n),REG(n,z3.Select(mval(m.t,m.ty),n))),z3.Select(mdom(m.t,m.ty),n))))]
add(Con('cards::pkgrepo::parse()',mods=(MP,),throws=RT,opts={'noauto':('',)}))
root('C19',over('C19',Con('cards::pkgrepo::parse()',post=post,setup=entry,mods=(MP,'g:_inerr'),throws=RT,opts={'noauto':('',),'hints':hints,'hint_ms':1500,'optimistic':True})))
