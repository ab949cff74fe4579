"""C28: base-system and in-use packages are refused for removal."""
from contracts.base import *
from contracts.common import RT
from contracts.records import PK, ent, fld, dbty
from loops import get
import loops
MT='std::map(str,rec:cards::db)'; MA='std::map(str,str)'; AL='m_listOfAlias'
for n in ('rm_orphans',): lib.GS[n]=B
def sorts(): lib.GS['rm_pk']=sort(MT); lib.GS['rm_al']=sort(MA)
LATE.append(sorts)
DP='std::pair(str,i64)'
def g(ex,st,n): return ex.g(st,n,lib.gsort(n))
def free_name(pk,al,x):
    """x is neither the base collection nor, under this or its real name, a recorded dependency"""
    j=z3.Const('j!iu',Str); t=z3.Int('t!iu'); a=lit('base')
    dep=lambda y: z3.ForAll([j,t],Not(And(z3.Select(mdom(pk,MT),j),z3.Select(fld(z3.Select(mval(pk,MT),j),'rec:cards::db','m_dependencies'),mkpair(y,t,DP)))))
    r=z3.Select(mval(al,MA),x)
    return And(x!=a,dep(x),Implies(z3.Select(mdom(al,MA),x),dep(r)))
def coll(pk,x): return fld(z3.Select(mval(pk,MT),x),'rec:cards::db','m_collection')
VS=lib.VS
def args_of(o): 
    v=[x for k,x in o.f.items() if k.split('::')[-1]=='m_otherArguments'][0]; return v.t
def entry(ex,st,this,args):
    sorts(); st.assume(Not(g(ex,st,'rm_orphans'))); a=ex.read(st,args[1]); a=a if isinstance(a,Obj) else unpack(a.t,a.ty); ex.iu=args_of(a); st.assume(vlen(ex.iu,VS)>=0); ex.iuo=a
    ex.iuf=('v','g:CardsArgumentParser::OPT_FORCE'); st.store[ex.iuf]=fresh_val('OPT_FORCE','rec:ArgParser::APOpt')
def forced(ex,st):
    so=[v for k,v in ex.iuo.f.items() if k.endswith('::m_setOptions')][0]; v=st.store[ex.iuf]; u=v if isinstance(v,Obj) else unpack(v.t,v.ty); id_=[x for k,x in u.f.items() if k.split('::')[-1]=='id'][0]
    return Select(mdom(so.t,so.ty),id_.t)
def all_free(ex,st):
    k=z3.Int('k!iu'); x=z3.Select(varr(ex.iu,VS),k); pk,al=g(ex,st,'rm_pk'),g(ex,st,'rm_al')
    return z3.ForAll([k],Implies(And(0<=k,k<vlen(ex.iu,VS)),free_name(pk,al,x)))
def calls(ex,st,con,c):
    if not con.sig.startswith('pkgrm::run('): return
    ex.oblige(st,all_free(ex,st),'before anything is removed: no name asked for is the base collection or a recorded dependency','effect')
    pk=g(ex,st,'rm_pk'); x=c.o('m_packageName').t
    ex.oblige(st,Or(g(ex,st,'rm_orphans'),forced(ex,st),Implies(z3.Select(mdom(pk,MT),x),coll(pk,x)!=lit('base'))),'a selected package of the base collection is removed only if forced','effect')
def effect(ex,st,k,p,p2): ex.oblige(st,FALSE,'nothing but the removal of a package changes anything (%s)'%k,'effect')
def hint(ex,st,h,mods):
    out=[]; pk,al=g(ex,st,'rm_pk'),g(ex,st,'rm_al'); x,y=qs('x','y'); t=z3.Int('t!iu'); A=ex.iu
    deps=lambda j: fld(z3.Select(mval(pk,MT),j),'rec:cards::db','m_dependencies')
    for l in mods:
        c=get(h,l)
        if isinstance(c,It) and c.kind=='idx' and spec.strip_ref(c.cty)==VS:
            k=z3.Int('k!iu'); out.append(('the names passed may be removed',lambda v,m,l=l: z3.ForAll([k],Implies(And(0<=k,k<v[l]),free_name(pk,al,z3.Select(varr(A,VS),k))))))
        if isinstance(c,It) and c.kind=='key':
            for s in strs(st):
                if c.cty.startswith('std::map(str,rec:cards::db'): out.append(('no package passed depends on it',lambda v,m,l=l,s=s: z3.ForAll([x,t],Implies(z3.Select(v[l],x),Not(z3.Select(deps(x),mkpair(s,t,DP)))))))
                elif c.cty.startswith('std::set(std::pair(str,i64'): out.append(('no dependency passed names it',lambda v,m,l=l,s=s: z3.ForAll([t],Not(z3.Select(v[l],mkpair(s,t,DP))))))
        SP='std::set(std::pair(str,str))'
        if isinstance(c,T) and c.ty and spec.strip_ref(c.ty)==SP: out.append(('packages are selected with their own collection',lambda v,m,l=l: fa([x,y],Implies(And(x!=lit(''),z3.Select(v[l],mkpair(x,y,'std::pair(str,str)')),z3.Select(mdom(pk,MT),x)),y==coll(pk,x)),z3.Select(v[l],mkpair(x,y,'std::pair(str,str)')))))
    return out
def strs(st):
    out={}
    for r,v in st.store.items():
        for p,x in loops.leaves(v):
            if isinstance(x,T) and x.ty=='str' and not p and r[0]!='arg': out[x.t.get_id()]=x.t
    return list(out.values())[:8]
FX=('g:fs_ex','g:removed','g:wst','g:waited','g:childpid','g:fs_lines','g:wrote','g:fs_synced','g:locked','g:_inerr','g:execd','g:extracted')
P='C28'
def light(sig,**k): return over(P,Con(sig,throws=k.pop('throws',RT),**k))
light('pkgdbh::buildDatabase(cref(bool))',mods=('this',)+FX,ghost={'g:rm_pk':lambda c: c.n(PK).t,'g:rm_al':lambda c: c.n(AL).t},trusted='loads the packages (C09); clearing left-over metadata files when the database is opened is not part of a removal')
light('pkgrm::run()',mods=('this',)+FX,trusted='only when it is called, and for which package, matters here')
light('pkgrm::getListOfManInstalledPackages()',mods=('m_listOfPackagesWithDeps','m_listOfPackagesNames','m_listofDependencies','m_listOfManInstalledPackages','m_actualError','g:_inerr'),ghost={'g:rm_orphans':lambda c: TRUE},trusted='works out which packages are still needed (C14); from here on only packages nobody needs are removed')
light('cards::conf::conf(cref(str))',mods=('this',),trusted='reads the configuration')
CT='cards::remove::remove(cref(str),cref(rec:CardsArgumentParser),cref(str))'
root(P,light(CT,mods=('this',)+FX+('g:rm_pk','g:rm_al','g:rm_orphans'),setup=entry,post=lambda c:[('nothing is refused silently: every name asked for may be removed',all_free_g(c))],opts={'calls':calls,'effect':effect,'hints':hint,'noauto':('',),'optimistic':True,'hint_ms':3000}))
def all_free_g(c):
    k=z3.Int('k!iu'); A=c.ex.iu; return z3.ForAll([k],Implies(And(0<=k,k<vlen(A,VS)),free_name(c.gn('rm_pk'),c.gn('rm_al'),z3.Select(varr(A,VS),k))))
