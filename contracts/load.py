"""C09: installed-package records are loaded as they are written."""
from contracts.base import *
from contracts.common import RT
from contracts.records import PK, ent, fld, dbty, rdir, rec
from contracts.lists import flines, line, VS
from contracts.needed import H, metaf
from loops import get
import loops
AL='m_listOfAlias'; NM='m_listOfPackagesNames'; DBE='m_DB_Empty'
def hidden(x): return strat(x,z3.IntVal(0))==ord('.')
def listing(D,x): return And(z3.Select(D,x),Not(hidden(x)))
def fd_setup(ex,st,this,args): ex.fdp=ex.lib.S(ex,st,args[1]); ex.fdl=ex.read(st,args[0]).t
def fd_hint(ex,st,h,mods):
    out=[]; x=z3.Const('x!fd',Str); G=('g','_dirseen'); ds=[d for d in st.ghost.get('dirseen_open',())]
    S0=ex.g(st,'_dirseen',lib.gsort('_dirseen')); d=S0.arg(1) if z3.is_store(S0) else None
    if d is None or G not in mods: return out
    D=terms.sel(ex.g(st,'fs_dir',lib.gsort('fs_dir')),ex.fdp)
    out.append(('only entries of the directory were seen',lambda v,m: fa([x],z3.Implies(z3.Select(z3.Select(v[G],d),x),z3.Select(D,x)),z3.Select(z3.Select(v[G],d),x))))
    for l in mods:
        y=get(h,l)
        if isinstance(y,T) and y.ty and kind(spec.strip_ref(y.ty))=='set':
            for e in mods:
                z=get(h,e)
                if isinstance(z,T) and z.t.sort()==core.Opq:
                    nm=z3.Function('d_name',core.Opq,Str)
                    out.append(('the entries seen before the one at hand are listed unless hidden',lambda v,m,l=l,e=e,y0=get(st,l).t: z3.ForAll([x],Or(z3.Select(v[l],x),And(v[e]!=core.NULLP,x==nm(v[e]),Not(hidden(x))))==Or(z3.Select(y0,x),And(z3.Select(z3.Select(v[G],d),x),Not(hidden(x)))))))
                    out.append(('at the end every entry was seen',lambda v,m,e=e: Implies(v[e]==core.NULLP,fa([x],Implies(z3.Select(D,x),z3.Select(z3.Select(v[G],d),x)),z3.Select(D,x)))))
            out.append(('the entries seen so far are listed unless hidden',lambda v,m,l=l,y0=get(st,l).t: z3.ForAll([x],z3.Select(v[l],x)==Or(z3.Select(y0,x),And(z3.Select(z3.Select(v[G],d),x),Not(hidden(x)))))))
    return out
def fd_post(c):
    x,=qs('x'); D=terms.sel(c.go('fs_dir'),c.a(1).t); o,n=c.a(0).t,c.an(0).t
    return [('a status',Or(c.ret.t==0,c.ret.t==-1)),('exactly the entries that are not hidden are added',Implies(c.ret.t==0,z3.ForAll([x],z3.Select(n,x)==Or(z3.Select(o,x),listing(D,x))))),('nothing is added when the directory cannot be read',Implies(c.ret.t==-1,Eq(n,o)))]
add(Con('findDir(ref(std::set(str)),cref(str))',post=fd_post,mods=('arg0',),throws=False,setup=fd_setup,opts={'hints':fd_hint}),'C09')
def dbdir(root): return cat(root,lit('var/lib/pkg/DB/'))
def gn_post(c):
    x,=qs('x'); o,n=c.o(NM).t,c.n(NM).t; e=Eq(o,emptyset(Str))
    return [('a list that is known stays',Implies(Not(e),Eq(n,o))),('the packages are the entries of the database directory that are not hidden',Implies(e,z3.ForAll([x],z3.Select(n,x)==listing(terms.sel(c.go('fs_dir'),dbdir(c.o('m_root').t)),x))))]
add(Con('pkgdbh::getListOfPackagesNames()',post=gn_post,mods=(NM,'m_actualError'),throws=RT),'C09')
# ---------------------------------------------------------------- what a metadata record says
import prog
TAG={k:ord(v) for k,v in dict(BUILD='B',CONTRIBUTORS='C',DESCRIPTION='D',LICENSE='L',MAINTAINER='M',URL='U',PACKAGER='P',VERSION='V',RELEASE='r',ARCHITECTURE='a',COLLECTION='c',SETS='s',GROUP='g',SPACE='S',ALIAS='A',CATEGORIES='T',RUNTIME_DEPENDENCY='R').items()}
BIG=z3.IntVal(2**64-1)
def tail(l): return lib.ssub_(l,z3.IntVal(1),BIG)
def tag(l): return strat(l,z3.IntVal(0))
def strtoul(s): return z3.Function('sstrtoul',Str,I,I)(s,z3.IntVal(0))
DP='std::pair(str,i64)'
def depname(l): n=slen(l); return lib.ssub_(l,z3.IntVal(1),z3.If(n<11,z3.IntVal(2**64-11)+n,n-11))
def depdate(l): n=slen(l); return as_time(strtoul(lib.ssub_(l,n-10,BIG)))
STRS=dict(m_contributors='CONTRIBUTORS',m_description='DESCRIPTION',m_license='LICENSE',m_maintainer='MAINTAINER',m_url='URL',m_packager='PACKAGER',m_version='VERSION',m_arch='ARCHITECTURE',m_collection='COLLECTION',m_group='GROUP')
SETS=dict(m_sets='SETS',m_categories='CATEGORIES',m_alias='ALIAS')
def as_time(u): return z3.If(u<2**63,u,u-2**64)
NUMS=dict(m_build=('BUILD',lambda t,x: x==as_time(strtoul(t)),0),m_release=('RELEASE',lambda t,x: x==lib.satoi(t)%z3.IntVal(2**16),1),m_space=('SPACE',lambda t,x: x==z3.If(lib.satoi(t)>=0,lib.satoi(t),lib.satoi(t)+2**32),0))
def grows(t,tg):
    """could the set term grow at a line with this tag (a filter for candidates only)"""
    subs={}; todo=[t]; seen=set()
    while todo:
        u=todo.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().name()=='sat' and z3.is_int_value(u.arg(1)) and u.arg(1).as_long()==0: subs[u.get_id()]=u
        todo+=u.children()
    if not subs: return True
    r=z3.simplify(z3.substitute(t,*[(u,z3.IntVal(tg)) for u in subs.values()]))
    return not z3.is_const(r)
class Lines:
    """quantifiers over the lines of a record (by position) or over the lines passed so far (a set)"""
    def __init__(s,L=None,V=None): s.L=L; s.V=V
    def some(s,f):
        if s.V is None: k=z3.Int('k!ld'); return z3.Exists([k],And(0<=k,k<vlen(s.L,VS),f(line(s.L,k))))
        x=z3.Const('x!ld',Str); return z3.Exists([x],And(z3.Select(s.V,x),f(x)))
def says(ls,field,v,ok=TRUE):
    """the value v of a field is what the lines say"""
    if field in STRS: t=TAG[STRS[field]]; good=lambda l: And(tag(l)==t,v==tail(l)); dflt=lit('')
    elif field in NUMS: n,g,d=NUMS[field]; t=TAG[n]; good=lambda l: And(tag(l)==t,g(tail(l),v)); dflt=z3.IntVal(d)
    elif field in SETS or field=='m_dependencies':
        if field=='m_dependencies': d=z3.Const('p!ld',sort(DP)); t=TAG['RUNTIME_DEPENDENCY']; is_=lambda l: And(tag(l)==t,d==mkpair(depname(l),depdate(l),DP))
        else: d=z3.Const('d!ld',Str); t=TAG[SETS[field]]; is_=lambda l: And(tag(l)==t,d==tail(l))
        a=fa([d],Implies(z3.Select(v,d),ls.some(is_)),z3.Select(v,d))
        b=z3.ForAll([d],Implies(ls.some(is_),z3.Select(v,d)))
        return And(a,Implies(ok,b))
    elif field=='m_dependency': e=ls.some(lambda l: l==lit('d1')); return And(Implies(v,e),Implies(ok,Implies(e,v)))
    else: raise KeyError(field)
    return Or(ls.some(good),And(v==dflt,Implies(ok,Not(ls.some(lambda l: tag(l)==t)))))
FIELDS=list(STRS)+list(NUMS)+list(SETS)+['m_dependencies','m_dependency']
def is_alias(ls,a): return ls.some(lambda l: And(tag(l)==TAG['ALIAS'],a==tail(l)))
def bd_setup(ex,st,this,args): ex.bd=(ex.read(st,this.f('pkgdbh::m_root','str')).t,coerce(ex.lib.S(ex,st,args[0]) if False else pack(ex.load(st,args[0])),B))
def fileset(L,x): return And(x!=lit(''),Lines(L).some(lambda l: x==l))
def bd_hint(ex,st,h,mods):
    out=[]; x,a=qs('x','a'); G=('g','_inerr'); FL=ex.g(st,'fs_lines',lib.gsort('fs_lines')); e0=ex.g(st,'_inerr',B); inerr=lambda v: v[G] if G in v else e0
    root,files=ex.bd; pk=[l for l in mods if l[0]=='l' and l[2] and str(l[2][-1][-1]).endswith('::'+PK)]; al=[l for l in mods if l[0]=='l' and l[2] and str(l[2][-1][-1]).endswith('::'+AL)]
    cur=[l for l in mods if isinstance(get(h,l),It) and get(h,l).kind=='key']
    if pk:
        l=pk[0]; ty=get(h,l).ty; T0=get(st,l).t; E=lambda v,x: z3.Select(mval(v[l],ty),x); D=lambda v,x: z3.Select(mdom(v[l],ty),x)
        for k in cur:
            out.append(('the packages passed are known',lambda v,m,k=k: fa([x],D(v,x)==Or(z3.Select(mdom(T0,ty),x),z3.Select(v[k],x)),D(v,x))))
            out.append(('nothing is known about the others',lambda v,m,k=k: fa([x],Implies(Not(z3.Select(v[k],x)),E(v,x)==z3.Select(mval(T0,ty),x)),E(v,x))))
            for f in ex.bdf: out.append(('%s of the packages passed'%f,lambda v,m,k=k,f=f: fa([x],Implies(z3.Select(v[k],x),says(Lines(terms.sel(FL,metaf(root,x))),f,fld(E(v,x),dbty(get(h,l)),f),Not(inerr(v)))),E(v,x),z3.Select(v[k],x))))
            if ex.bdn: out.append(('files of the packages passed',lambda v,m,k=k: fa([x,a],Implies(And(z3.Select(v[k],x),files),z3.Select(fld(E(v,x),dbty(get(h,l)),'files'),a)==fileset(terms.sel(FL,rec(root,x)),a)),z3.Select(fld(E(v,x),dbty(get(h,l)),'files'),a))))
            for q in al if ex.bdn else ():
                aty=get(h,q).ty; A0=get(st,q).t; AD=lambda v,a: z3.Select(mdom(v[q],aty),a); AV=lambda v,a: z3.Select(mval(v[q],aty),a)
                out.append(('names passed can be resolved',lambda v,m,k=k: fa([x],Implies(z3.Select(v[k],x),AD(v,x)),z3.Select(v[k],x))))
                out.append(('an alias comes from the package it names',lambda v,m,k=k: fa([a],Implies(AD(v,a),Or(And(z3.Select(mdom(A0,aty),a),AV(v,a)==z3.Select(mval(A0,aty),a)),And(z3.Select(v[k],AV(v,a)),Or(a==AV(v,a),is_alias(Lines(terms.sel(FL,metaf(root,AV(v,a)))),a))))),AD(v,a))))
        return out
    for k in cur:
        for l in mods:
            if l[0]!='l' or not l[2]: continue
            f=str(l[2][-1][-1]).split('::')[-1]
            if f in ex.bdf: out.append(('%s of the lines passed'%f,lambda v,m,l=l,k=k,f=f: says(Lines(V=v[k]),f,v[l])))
        for l in mods:
            y=get(h,l)
            if isinstance(y,T) and y.ty and kind(spec.strip_ref(y.ty))=='set' and not l[2]:
                for f in list(SETS)+['m_dependencies']:
                    if f in ex.bdf and sort(y.ty)==(sort('std::set(%s)'%DP) if f=='m_dependencies' else sort('std::set(str)')): out.append(('%s of the lines passed (%s)'%(f,l[1]),lambda v,m,l=l,k=k,f=f: FALSE if m=='step' and not grows(v[l],TAG[dict(SETS,m_dependencies='RUNTIME_DEPENDENCY')[f]]) else says(Lines(V=v[k]),f,v[l])))
        for q in al if ex.bdn else ():
            aty=get(h,q).ty; A0=get(st,q).t; AD=lambda v,a: z3.Select(mdom(v[q],aty),a); AV=lambda v,a: z3.Select(mval(v[q],aty),a); D0=lambda a: z3.Select(mdom(A0,aty),a); V0=lambda a: z3.Select(mval(A0,aty),a)
            nm=[d for d in ex.bdnames(st)] if hasattr(ex,'bdnames') else []
            out.append(('names stay known',lambda v,m: fa([a],Implies(D0(a),AD(v,a)),D0(a),AD(v,a))))
            for i in strs(st): out.append(('an alias line passed names the package',lambda v,m,i=i,k=k,q=q: FALSE if not lib.mentions(v[q],i) and m=='step' else fa([a],Implies(AD(v,a),Or(And(D0(a),AV(v,a)==V0(a)),And(AV(v,a)==i,is_alias(Lines(V=v[k]),a)))),AD(v,a))))
    pos=[l for l in mods if ex.bdn and l[0]=='l' and l[2] and l[2][-1]==('s','pos')]
    for l in pos:
        path=get(st,(l[0],l[1],l[2][:-1]+(('s','path'),))) if True else None
        L=terms.sel(FL,path.t); n=vlen(L,VS)
        out.append(('within the file',lambda v,m,l=l: And(v[l]>=0,v[l]<=n,n>=0)))
        for e in mods:
            if e[0]=='l' and e[1]==l[1] and e[2][-1][1] in('eof','fail'): out.append(('%s only at the end'%e[2][-1][1],lambda v,m,l=l,e=e: Implies(v[e],v[l]==n)))
        for r in mods:
            y=get(h,r)
            if isinstance(y,T) and y.ty and kind(spec.strip_ref(y.ty))=='set' and sort(y.ty)==sort('std::set(str)'):
                k=z3.Int('k!fl'); y0=get(st,r).t
                out.append(('the lines read so far',lambda v,m,l=l,r=r: z3.ForAll([a],z3.Select(v[r],a)==And(a!=lit(''),z3.Exists([k],And(0<=k,k<v[l],a==line(L,k)))))))
    return out
def strs(st):
    out={}
    for r,v in st.store.items():
        for p,x in loops.leaves(v):
            if isinstance(x,T) and x.ty=='str' and not p: out[x.t.get_id()]=x.t
    return list(out.values())[:12]
def bd_post(c,names,fields):
    x,a=qs('x','a'); root=c.o('m_root').t; N=c.n(NM).t; P0,P=c.o(PK),c.n(PK); ty=P.ty; do=c.o(DBE).t; ok=Not(c.gn('_inerr')); E=lambda x: ent(P,x); FL=c.go('fs_lines')
    A0,A=c.o(AL),c.n(AL); AD=lambda a: z3.Select(mdom(A.t,A.ty),a); AV=lambda a: z3.Select(mval(A.t,A.ty),a)
    out=[('a database that is loaded stays as it is',Implies(Not(do),And(Eq(P.t,P0.t),Eq(A.t,A0.t),Eq(N,c.o(NM).t)))),
      ('the packages are the entries of the database directory that are not hidden',Implies(And(do,Eq(c.o(NM).t,emptyset(Str))),z3.ForAll([x],z3.Select(N,x)==listing(terms.sel(c.go('fs_dir'),dbdir(root)),x)))),
      ('the packages are the listed ones',Implies(do,fa([x],z3.Select(mdom(P.t,ty),x)==Or(z3.Select(mdom(P0.t,ty),x),z3.Select(N,x)),z3.Select(mdom(P.t,ty),x))))]
    for f in fields: out.append(('%s comes from the own metadata of the package'%f,Implies(do,fa([x],Implies(z3.Select(N,x),says(Lines(terms.sel(FL,metaf(root,x))),f,fld(E(x),dbty(P),f),ok)),z3.Select(N,x)))))
    if not names: return out
    fs=c.a(0).t
    out.append(('the files are the lines of the own record',Implies(And(do,fs),z3.ForAll([x,a],Implies(z3.Select(N,x),z3.Select(fld(E(x),dbty(P),'files'),a)==fileset(terms.sel(FL,rec(root,x)),a))))))
    out.append(('every package can be found by its name',Implies(do,fa([x],Implies(z3.Select(N,x),AD(x)),z3.Select(N,x)))))
    out.append(('an alias comes from the package it names',Implies(do,fa([a],Implies(AD(a),Or(And(z3.Select(mdom(A0.t,A0.ty),a),AV(a)==z3.Select(mval(A0.t,A0.ty),a)),And(z3.Select(N,AV(a)),Or(a==AV(a),is_alias(Lines(terms.sel(FL,metaf(root,AV(a)))),a))))),AD(a)))))
    return out
BD='pkgdbh::buildDatabase(cref(bool))'
PARTS=[('names',[]),('text',list(STRS)[:5]),('more text',list(STRS)[5:]),('numbers',list(NUMS)+['m_dependency']),('lists',list(SETS)),('dependencies',['m_dependencies'])]
def part(nm,fields):
    def hints(ex,st,h,mods): ex.bdf=fields; ex.bdn=nm=='names'; return bd_hint(ex,st,h,mods)
    return Con(BD,post=lambda c: bd_post(c,nm=='names',fields),mods=(PK,NM,AL,DBE,'m_actualError','m_actualAction','g:_inerr','g:fs_ex','g:removed'),throws=RT,setup=bd_setup,opts={'hints':hints,'noauto':('',),'optimistic':True,'hint_ms':4000})
for nm,fields in PARTS: root('C09',part(nm,fields))
# ---------------------------------------------------------------- single records read again on demand
def gf_setup(ex,st,this,args): ex.bd=(ex.read(st,this.f('pkgdbh::m_root','str')).t,TRUE); ex.bdn=True; ex.bdf=[]
def own(c): A=c.o(AL); n=c.a(0).t; return z3.If(z3.Select(mdom(A.t,A.ty),n),z3.Select(mval(A.t,A.ty),n),lit(''))
def gf_post(c):
    a,=qs('a'); L=terms.sel(c.go('fs_lines'),rec(c.o('m_root').t,own(c)))
    return [('the files are the lines of the own record',z3.ForAll([a],z3.Select(c.ret.t,a)==fileset(L,a)))]
add(Con('pkgdbh::getSetOfFiles(cref(str))',post=gf_post,mods=(AL,'m_actualError','g:_inerr'),throws=RT,setup=gf_setup,opts={'hints':bd_hint,'noauto':('',),'optimistic':True}),'C09')
def it_setup(ex,st,this,args): ex.itc=(args[1] if isinstance(args[1],T) else ex.read(st,args[1])).t
def it_hint(ex,st,h,mods):
    out=[]; x,d=qs('x','d')
    for k in mods:
        if not(isinstance(get(h,k),It) and get(h,k).kind=='key'): continue
        out.append(('no such line among those passed',lambda v,m,k=k: fa([x],Implies(z3.Select(v[k],x),tag(x)!=ex.itc),z3.Select(v[k],x))))
        for l in mods:
            y=get(h,l)
            if isinstance(y,T) and y.ty and kind(spec.strip_ref(y.ty))=='set' and not l[2] and sort(y.ty)==sort('std::set(str)'): out.append(('the items of the lines passed',lambda v,m,l=l,k=k: fa([d],z3.Select(v[l],d)==z3.Exists([x],And(z3.Select(v[k],x),tag(x)==ex.itc,d==tail(x))),z3.Select(v[l],d))))
    return out
def it_lines(c): return Lines(terms.sel(c.go('fs_lines'),metaf(c.o('m_root').t,c.a(0).t))),(lambda l: tag(l)==c.a(1).t)
def si_post(c):
    ls,t=it_lines(c); ok=Not(c.gn('_inerr')); r=c.ret.t
    e=ls.some(lambda l: And(t(l),r==tail(l)))
    return [('an item is what a line of the own metadata says',Implies(r!=lit(''),e)),('an item the metadata has is found',Implies(And(ok,ls.some(t)),e))]
def so_post(c):
    d,=qs('d'); ls,t=it_lines(c); ok=Not(c.gn('_inerr')); r=c.ret.t; e=ls.some(lambda l: And(t(l),d==tail(l)))
    return [('only items of the own metadata',fa([d],Implies(z3.Select(r,d),e),z3.Select(r,d))),('all items of the own metadata',Implies(ok,z3.ForAll([d],Implies(e,z3.Select(r,d)))))]
for n,po in (('getSingleItem',si_post),('getSetOfItems',so_post)): add(Con('pkgdbh::%s(cref(str),char)c'%n,post=po,mods=('g:_inerr',),throws=RT,setup=it_setup,opts={'hints':it_hint,'noauto':('',),'hint_ms':5000}),'C09')
