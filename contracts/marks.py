"""C13: the automatic-install mark."""
from contracts.base import *
from contracts.common import RT
from contracts.records import PK, ent, fld, dbty, ss, is_tbl, rdir
from contracts.lists import flines, among, VS
from loops import get
import loops
for n,s in (('marked',B),('mk_name',Str),('mk_mem',B),('mk_memname',Str)): lib.GS[n]=s
FS=('g:fs_ex','g:removed','g:fs_lines','g:wrote','g:fs_synced','g:wst','g:waited','g:childpid','g:execd','g:extracted','g:locked','g:_inerr')
DEP='m_dependency'
def dep(e,ty): return fld(e,ty,DEP)
def mem_kept(T0,T1):
    m,=qs('m'); ty=dbty(T0); d0=lambda m: z3.Select(mdom(T0.t,T0.ty),m); d1=lambda m: z3.Select(mdom(T1.t,T1.ty),m)
    return [('every package stays listed',fa([m],Implies(d0(m),d1(m)),d0(m),d1(m))),('every package keeps its mark',fa([m],Implies(d0(m),dep(ent(T1,m),ty)==dep(ent(T0,m),ty)),ent(T1,m)))]
def req_kept(c): return [('the request stays',Eq(c.n(DEP).t,c.o(DEP).t))]
AL='m_listOfAlias'
def alias_kept(c): return [('every name stays known',Eq(c.n(AL).t,c.o(AL).t))]
def others_kept(c,nm):
    m,=qs('m'); T0,T1=c.o(PK),c.n(PK); ty=dbty(T0); d0=lambda m: z3.Select(mdom(T0.t,T0.ty),m); d1=lambda m: z3.Select(mdom(T1.t,T1.ty),m)
    return [('every other package stays listed and keeps its mark',fa([m],Implies(And(m!=nm,d0(m)),And(d1(m),dep(ent(T1,m),ty)==dep(ent(T0,m),ty))),d0(m),d1(m),ent(T1,m)))]
def keep_hint(ex,st,h,mods):
    out=[]
    for l in mods:
        x=get(h,l); x0=get(st,l)
        if l[0]=='l' and l[2] and l[2][-1][1] in('pkgdbh::m_dependency','pkgdbh::m_upgrade','pkgdbh::m_root','pkgdbh::m_listOfAlias'): out.append(('%s stays'%l[2][-1][1],lambda v,m,l=l,x0=x0: v[l]==x0.t))
        if is_tbl(x):
            for i in range(2): out.append((mem_kept(x0,x0)[i][0],lambda v,m,l=l,x0=x0,i=i,ty=x.ty: mem_kept(x0,T(v[l],ty))[i][1]))
            m_,=qs('m'); out.append(('no package is added',lambda v,m,l=l,x0=x0,ty=x.ty: fa([m_],z3.Select(mdom(v[l],ty),m_)==z3.Select(mdom(x0.t,ty),m_),z3.Select(mdom(v[l],ty),m_))))
        elif isinstance(x,T) and x.ty and kind(x.ty)=='pair' and x.ty.endswith('rec:cards::db)') and isinstance(x0,T):
            out.append(('the copy keeps its name and mark',lambda v,m,l=l,x0=x0,ty=x.ty: And(pfst(v[l],ty)==pfst(x0.t,ty),dep(psnd(v[l],ty),'rec:cards::db')==dep(psnd(x0.t,ty),'rec:cards::db'))))
    return out
KEEP={n:(lambda c,n=n: c.o(n).t) for n in(PK,AL,DEP)}
def light(sig,mods=(),post=None,throws=RT,same=True,**k):
    o=dict(k.pop('opts',{})); o.setdefault('noauto',('',)); o.setdefault('hints',keep_hint)
    return over('C13',Con(sig,mods=('this',)+FS+tuple(mods),sets=KEEP if same and not post else {},post=lambda c: [] if same and not post else req_kept(c)+(post(c) if post else mem_kept(c.o(PK),c.n(PK))+alias_kept(c)),throws=throws,opts=o,**k))
# helpers of an installation that leave the request and the marks alone
def rm_post(c):
    nm=c.a(0).t; return others_kept(c,nm)
for s in ('pkgdbh::removePackageFiles(cref(str))','pkgdbh::removePackageFiles(cref(str),cref(std::set(str)))'): light(s,post=rm_post,opts={'hints':lambda ex,st,h,mods: keep_hint(ex,st,h,mods)})
light('pkgdbh::removePackageFilesRefsFromDB(cref(str))',same=False)
light('pkgdbh::removePackageFilesRefsFromDB(std::set(str),cref(std::set(str)))',same=False)
light('pkgdbh::installArchivePackage(cref(str),cref(std::set(str)),cref(std::set(str)))')
light('pkgdbh::extractAndRunPREfromPackage(cref(str))')
light('pkgdbh::readRulesFile()')
for s,m in (('pkgadd::applyInstallRules(cref(str),ref(rec:cards::db),cref(std::vector(rec:rule_t)))',('m_postInstallList','m_actualError','arg1')),('pkgadd::getKeepFileList(cref(std::set(str)),cref(std::vector(rec:rule_t)))',('m_actualError',))):
    over('C13',Con(s,mods=m,throws=RT,opts={'noauto':('',)}))
light('pkgdbh::getConflictsFilesList(cref(str),ref(rec:cards::db))')
light('pkgdbh::openArchivePackage(cref(str))')
_a=C['archive::archive(cref(str))']; over('C13',Con(_a.sig,mods=('this','g:_inerr'),throws=RT,opts={'noauto':('',)}))
over('C13',Con('archive::listofDependenciesBuildDate()',mods=('m_actualError','m_rtDependenciesEpochList'),throws=RT,opts={'noauto':('',)}))
# what is recorded
def metaf(root,m): return cat(rdir(root,m),lit('/META'))
def mm_hook(ex,st,k,p,p2):
    if k not in('open-write','creat','write','close','flush'): return
    if not hasattr(ex,'mm'): return
    root,name,d=ex.mm
    if k in('open-write','creat'): ex.oblige(st,Implies(p==metaf(root,name),d),'the metadata is rewritten only when the mark was requested','effect')
def mm_setup(ex,st,this,args):
    r=lambda n,t: ex.read(st,this.f('pkgdbh::'+n,t)).t
    ex.mm=(r('m_root','str'),ex.read(st,args[0]).t,r(DEP,'bool'))
def mm_post(c):
    x=z3.Const('x!mm',Str); d=c.o(DEP).t; L=terms.sel(c.gn('fs_lines'),metaf(c.o('m_root').t,c.a(0).t)); L0=terms.sel(c.go('fs_lines'),lit('.META'))
    S=z3.Const('S!mm',sort('std::set(str)'))
    return [('the request is consumed',Not(c.n(DEP).t)),
      ('when requested, the metadata is what the package brought and the mark',Implies(d,z3.Exists([S],And(L==ss(S),z3.ForAll([x],z3.Select(S,x)==z3.Or(x==lit('d1'),among(L0,vlen(L0,VS),x)))),patterns=[ss(S)]))),
      ]+mem_kept(c.o(PK),c.n(PK))+[('the entry at hand carries the mark',dep(pack(c.an(1)),'rec:cards::db')==d)]
def lines_hint(ex,st,h,mods):
    out=keep_hint(ex,st,h,mods)
    for l in mods:
        x=get(h,l)
        if isinstance(x,T) and x.ty==VS and l[0]=='l' and l[2] and l[2][-1]==('s','lines'):
            for c in mods:
                y=get(h,c)
                if isinstance(y,It) and y.kind=='key' and y.cur.sort()==Str: out.append(('the lines written so far are the elements visited so far',lambda v,m,l=l,c=c: v[l]==ss(v[c])))
    return out
MM='pkgdbh::moveMetaFilesPackage(cref(str),ref(rec:cards::db))'
root('C13',over('C13',Con(MM,mods=('this','arg1')+FS,post=mm_post,throws=RT,setup=mm_setup,opts={'effect':mm_hook,'hints':lines_hint,'noauto':('',)},ghost={'g:marked':lambda c: c.o(DEP).t,'g:mk_name':lambda c: c.a(0).t})))
def entry(ex,st,this,args): ex.entry=st.cp()
def run_post(c):
    T0=c.o(PK); n=c.gn('ar_name'); ty=dbty(T0); T1=c.n(PK)
    want=Ite(c.o('m_upgrade').t,dep(ent(T0,n),ty),c.o(DEP).t)
    return [('the mark recorded is the one the package had (upgrade), or the one asked for',c.gn('marked')==want),('for this package',Eq(c.gn('mk_name'),n)),
      ('the request is consumed',Not(c.n(DEP).t)),('the package in memory carries the same mark',And(Select(mdom(T1.t,T1.ty),n),dep(ent(T1,n),ty)==want))]
def run_pre(c):
    m,=qs('m'); T0=c.o(PK); al=c.o('m_listOfAlias')
    return [('every package is known under its own name',fa([m],Implies(z3.Select(mdom(T0.t,T0.ty),m),z3.Select(mdom(al.t,al.ty),m)),z3.Select(mdom(T0.t,T0.ty),m)))]
RUNM=("this","g:marked","g:mk_name","g:ar_name")+FS
over('C13',Con('pkgdbh::openArchivePackage(cref(str))',mods=('this',)+FS,sets=KEEP,throws=RT,opts={'noauto':('',),'hints':keep_hint},ghost={'g:ar_name':lambda c: pfst(c.ret.t,c.ret.ty)}))
root('C13',over('C13',Con('pkgadd::run()',pre=run_pre,mods=RUNM,post=run_post,throws=RT,opts={'noauto':('',),'hints':keep_hint})))
root('C13',over('C13',Con('pkgdbh::setDependency()',mods=(DEP,),throws=False,post=lambda c:[('requested',c.n(DEP).t)])))
root('C13',over('C13',Con('pkgdbh::resetDependency()',mods=(DEP,),throws=False,post=lambda c:[('not requested',Not(c.n(DEP).t))])))
for s in ('pkgdbh::pkgdbh()','pkgdbh::pkgdbh(cref(str))','pkgadd::pkgadd()','pkgadd::pkgadd(cref(str))'):
    root('C13',over('C13',Con(s,mods=('this',),throws=False,post=lambda c:[('nothing is requested at first',Not(c.n(DEP).t))])))
over('C13',Con('checkFilesEqual(cref(str),cref(str))',mods=('g:_inerr',),throws=False,opts={'noauto':('',)}))
