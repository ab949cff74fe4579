"""C29, C15: archive metadata; the up-to-date verdict."""
from contracts.base import *
from contracts.common import RT
import loops
from loops import get
VS=lib.VS
_m={}
def M():
    """vocabulary: first(v,c) = index of the first line of v that starts with c (its length if none); rest(v,c) = the remainder of that line, or empty"""
    if _m: return _m
    vs=sort(VS); first=z3.Function('firsttag',vs,I,I); v=z3.Const('v!t',vs); c,j=z3.Ints('c!t j!t')
    r=first(v,c); n=vlen(v,VS); a=varr(v,VS)
    solve.EXTRA_AX.append((('firsttag',),[
        z3.ForAll([v,c],z3.Implies(n>=0,z3.And(0<=r,r<=n,z3.Implies(r<n,strat(z3.Select(a,r),z3.IntVal(0))==c))),patterns=[r]),
        z3.ForAll([v,c,j],z3.Implies(z3.And(0<=j,j<n,j<r),strat(z3.Select(a,j),z3.IntVal(0))!=c),patterns=[z3.MultiPattern(r,z3.Select(a,j))])]))
    _m.update(first=first); return _m
def line(v,k): return z3.Select(varr(v,VS),k)
def first(v,c): return M()['first'](v,z3.IntVal(ord(c)))
def rest(v,c): return z3.If(first(v,c)<vlen(v,VS),lib.ssub_(line(v,first(v,c)),z3.IntVal(1),z3.IntVal(lib.NPOS)),lit(''))
META='m_contentMeta'
def acc_hint(ex,st,h,mods):
    """no line passed so far carries a tag the function looks for"""
    out=[]; vs=[]
    for r,v in st.store.items():
        for p,x in loops.leaves(v):
            if isinstance(x,T) and x.ty and spec.strip_ref(x.ty)==VS and p: vs.append(x.t)
    for l in mods:
        x=get(h,l); it=isinstance(x,It) and x.kind=='idx'
        if not it and not (isinstance(x,T) and x.t.sort()==I and x.ty!='bool'): continue
        for v in vs[:4]:
            for c in ex.tags: out.append(('no %s line among those passed'%c,lambda y,m,l=l,v=v,c=c: first(v,c)>=y[l]))
    return out
def tagsetup(*cs):
    def f(ex,st,this,args): ex.tags=cs
    return f
def lenpre(c): return [('a list has a length',vlen(c.o(META).t,VS)>=0)]
def acc(name,tag,val=None,ret=None,**k):
    val=val or (lambda c: rest(c.o(META).t,tag))
    return add(Con('archive::%s()'%name,pre=lenpre,post=lambda c: [('the remainder of the first %s line'%tag,Eq(c.ret.t,val(c)))],mods=(),setup=tagsetup(tag),opts={'hints':acc_hint},**k),'C29')
for n,t in (('version','V'),('url','U'),('license','L'),('description','D'),('group','g'),('nls','n'),('maintainer','M'),('contributors','C'),('packager','P'),('collection','c'),('epochBuildDate','B')):
    acc(n,t,throws=False)
sul=z3.Function('sstrtoul',Str,I,I); satoi=core.satoi
INV='rec:std::invalid_argument'
def tt(x): return z3.If(x>=2**63,x-2**64,x)   # unsigned long -> time_t
def num(v,tag,f): return z3.If(first(v,tag)<vlen(v,VS),f(lib.ssub_(line(v,first(v,tag)),z3.IntVal(1),z3.IntVal(lib.NPOS))),z3.IntVal(0))
acc('release','r',val=lambda c: num(c.o(META).t,'r',satoi),throws=INV)
acc('build','B',val=lambda c: num(c.o(META).t,'B',lambda x: tt(sul(x,z3.IntVal(0)))),throws=False)
sctime=z3.Function('sctime',I,Str)
acc('builddate','B',val=lambda c: sctime(tt(sul(rest(c.o(META).t,'B'),z3.IntVal(0)))),throws=False)
def req(name,tag,**k):
    return add(Con('archive::%s()'%name,pre=lenpre,post=lambda c: [('the remainder of the first %s line'%tag,Eq(c.ret.t,rest(c.o(META).t,tag)))],mods=('m_actualError',),throws=RT,setup=tagsetup(tag),opts={'hints':acc_hint},**k),'C29')
add(Con('archive::getPackageName()',pre=lenpre,post=lambda c: [('the remainder of the first N line',Eq(c.ret.t,rest(c.o(META).t,'N'))),('there is one',first(c.o(META).t,'N')<vlen(c.o(META).t,VS))],
    xpost=lambda c: [('there is none',first(c.o(META).t,'N')>=vlen(c.o(META).t,VS))],mods=(),xmods=('m_actualError',),throws=RT,setup=tagsetup('N'),opts={'hints':acc_hint}),'C29')
add(Con('archive::getPackageArch()',pre=lenpre,post=lambda c: [('the remainder of the first a line',Eq(c.ret.t,rest(c.o(META).t,'a')))],
    xpost=lambda c: [('there is no line at all',vlen(c.o(META).t,VS)==0)],mods=(),xmods=('m_actualError',),throws=RT,setup=tagsetup('a'),opts={'hints':acc_hint}),'C29')
for n,f in (('name','m_packageName'),('arch','m_packageArch')):
    add(Con('archive::%s()'%n,post=lambda c,f=f: [('as recorded',Eq(c.ret.t,c.o(f).t))],mods=(),throws=False),'C29')
def tagged(c,tag,x,proj):
    k=z3.Int('k!tg'); v=c.o(META).t
    return z3.Exists([k],z3.And(0<=k,k<vlen(v,VS),strat(line(v,k),z3.IntVal(0))==z3.IntVal(ord(tag)),x==proj(line(v,k))))
tail=lambda l: lib.ssub_(l,z3.IntVal(1),z3.IntVal(lib.NPOS))
def setacc(name,field,tag,extra=None,pre=None,proj=tail,ty='std::set(str)',**k):
    def post(c):
        x=z3.Const('x!sa',sort(spec.ptype(ty)[1][0])); e=extra(c,x) if extra else FALSE
        r=z3.Select(c.ret.t,x); o=z3.Select(c.o(field).t,x); t=tagged(c,tag,x,proj)
        return [('nothing but the remainders of the %s lines'%tag,z3.ForAll([x],z3.Implies(r,z3.Or(o,e,t)))),('the remainder of every %s line'%tag,z3.ForAll([x],z3.Implies(z3.Or(o,e,t),r))),
                ('the list is remembered',Eq(c.n(field).t,c.ret.t))]
    return add(Con('archive::%s()'%name,pre=(lambda c: lenpre(c)+pre(c)) if pre else lenpre,post=post,mods=(field,),setup=tagsetup(tag),opts={'hints':acc_hint},**k),'C29')
setacc('listofAlias','m_aliasList','A',throws=False); setacc('listofCategories','m_categoriesList','T',throws=False); setacc('listofSets','m_setsList','s',throws=False)

setacc('listofDependencies','m_rtDependenciesList','R',extra=lambda c,x: x==cat(rest(c.o(META).t,'N'),rest(c.o(META).t,'B')),throws=RT,xmods=('m_actualError',))
PT='std::pair(str,i64)'
def cut(l): n=slen(l); return mkpair(lib.ssub_(l,z3.IntVal(1),n-11),tt(sul(lib.ssub_(l,n-10,z3.IntVal(lib.NPOS)),z3.IntVal(0))),PT)
def wellformed(c):
    k=z3.Int('k!wf'); v=c.o(META).t
    return [('every dependency line carries a ten digit build date',z3.ForAll([k],z3.Implies(z3.And(0<=k,k<vlen(v,VS),strat(line(v,k),z3.IntVal(0))==ord('R')),z3.And(slen(line(v,k))>=11,slen(line(v,k))<2**62)),patterns=[line(v,k)]))]
setacc('listofDependenciesBuildDate','m_rtDependenciesEpochList','R',extra=lambda c,x: x==mkpair(rest(c.o(META).t,'N'),num(c.o(META).t,'B',lambda y: tt(sul(y,z3.IntVal(0)))),PT),proj=cut,pre=wellformed,ty='std::set(std::pair(str,i64))',throws=RT,xmods=('m_actualError','m_rtDependenciesEpochList'))
def ef_setup(ex,st,this,args): ex.asked=ex.lib.S(ex,st,args[1])
def x_data(ex,st,fn,obj,a,e):
    h=ex.lib.ent(ex,st,a[0]); P=z3.Select(ex.g(st,'_arpos',lib.gsort('_arpos')),h); A=z3.Select(ex.g(st,'_arpath',lib.gsort('_arpath')),h)
    ex.oblige(st,lib.epath(lib.arent(A,P-1))==ex.asked,'only the content of the member asked for is read','effect')
    return ex.frv(st,'read',fn['ret'])
add(Con('archive::extractFileContent(ref(std::vector(str)),ptr(char))',post=lambda c:[('a list has a length',vlen(c.an(0).t,VS)>=0)],mods=('arg0','m_actualError'),throws=RT,setup=ef_setup,opts={'ext':{'archive_read_data':x_data}}),'C29')
def ctor_post(c):
    f,=qs('f'); k=z3.Int('k!mt'); v=c.n(META).t; t=c.n('m_contentMtree').t
    e=lambda n: Eq(c.n(n).t,emptyset(Str))
    l=z3.Select(varr(t,VS),k)
    return [('the name is the one in the metadata',Eq(c.n('m_packageName').t,rest(v,'N'))),('the architecture is the one in the metadata',Eq(c.n('m_packageArch').t,rest(v,'a'))),
      ('the metadata and the file list are not empty',And(vlen(v,VS)>0,vlen(t,VS)>0)),('a name is recorded',first(v,'N')<vlen(v,VS)),
      ('the files are the entries that are not hidden',z3.ForAll([f],z3.Select(c.n('m_filesList').t,f)==z3.Exists([k],z3.And(0<=k,k<vlen(t,VS),f==l,strat(l,z3.IntVal(0))!=ord('.')))))]+[(n+' starts empty',e(n)) for n in('m_rtDependenciesList','m_aliasList','m_categoriesList','m_setsList')]
add(Con('archive::archive(cref(str))',post=ctor_post,mods=('this',),throws=RT),'C29')
# ---------------------------------------------------------------- C15
from contracts.records import PK, ent, fld, dbty
def installed(c,nm):
    """(listed, entry getter) of package nm in the database"""
    tb=c.o(PK); e=ent(tb,nm); g=lambda n: fld(e,dbty(tb),n)
    return terms.sel(c.o('m_listOfPackagesNames').t,nm),g
def listed_pre(c):
    m,=qs('m'); tb=c.o(PK)
    return [('every listed name has an entry',fa([m],z3.Implies(terms.sel(c.o('m_listOfPackagesNames').t,m),z3.Select(mdom(tb.t,tb.ty),m)),z3.Select(c.o('m_listOfPackagesNames').t,m)))]
def verdict(inst,g,ver,rel,bld,col):
    e=lit('')
    return z3.And(inst,Eq(g('m_version'),ver),g('m_release')==rel,g('m_build')>=bld,z3.Or(Eq(g('m_collection'),e),Eq(col,e),Eq(g('m_collection'),col)))
def post_a(c):
    ar=c.a(0); v=c.of(ar,META).t; nm=c.of(ar,'m_packageName').t; inst,g=installed(c,nm)
    return [('up to date exactly when name, version, release, build and collection say so',c.ret.t==verdict(inst,g,rest(v,'V'),num(v,'r',satoi),num(v,'B',lambda x: tt(sul(x,z3.IntVal(0)))),rest(v,'c')))]
add(Con('pkgdbh::checkPackageNameUptodate(ref(rec:archive))',pre=lambda c: listed_pre(c)+[('a list has a length',vlen(c.of(c.a(0),META).t,VS)>=0)],post=post_a,mods=(),throws=INV),'C15')
def post_p(c):
    p=c.a(0); nm=pfst(p.t,p.ty); inst,g=installed(c,nm); u=unpack(psnd(p.t,p.ty),'rec:cards::db'); h=lambda n: [v for k,v in u.f.items() if k.endswith('::'+n)][0].t
    return [('up to date exactly when name, version, release, build and collection say so',c.ret.t==verdict(inst,g,h('m_version'),h('m_release'),h('m_build'),h('m_collection')))]
add(Con('pkgdbh::checkPackageNameUptodate(ref(std::pair(str,rec:cards::db)))',pre=listed_pre,post=post_p,mods=(),throws=False),'C15')
def post_b(c):
    p=c.a(0); nm=pfst(p.t,p.ty); b=psnd(p.t,p.ty); inst,g=installed(c,nm)
    return [('satisfied exactly when dated, installed and not older',c.ret.t==z3.And(b!=0,inst,g('m_build')>=b))]
add(Con('pkgdbh::checkPackageNameBuildDateSame(cref(std::pair(str,i64)))',pre=listed_pre,post=post_b,mods=(),throws=False),'C15')
