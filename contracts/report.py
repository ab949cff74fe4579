"""C16: the upgrade report classifies every installed package once and correctly."""
from contracts.base import *
from contracts.common import RT
from contracts.records import PK, ent, fld, dbty
from loops import get
import loops
MT='std::map(str,rec:cards::db)'; MR='std::map(str,rec:cards::cache)'; CA='rec:cards::cache'; DB='rec:cards::db'; MP='m_listOfPackages'; MD='std::map(str,rec:cards::m_package)'; PM='rec:cards::m_package'
W32=z3.IntVal(2**32)
def sorts(): lib.GS['dp_inst']=sort(MT)
LATE.append(sorts)
def REPO(): return z3.Const('REPO!',sort(MR))           # the entries of the configured indexes
def g(ex,st,n): return ex.g(st,n,lib.gsort(n))
def rdom(x): return z3.Select(mdom(REPO(),MR),x)
def R(x,f): return fld(z3.Select(mval(REPO(),MR),x),CA,f)
def I_(inst,x,f): return fld(z3.Select(mval(inst,MT),x),DB,f)
def vtext(v,r): return cat(cat(v,lit('-')),itos_(r))
def unchanged(inst,x): b=R(x,'m_build'); return And(b!=0,I_(inst,x,'m_build')>=b)
def samever(inst,x): return And(I_(inst,x,'m_version')==R(x,'m_version'),I_(inst,x,'m_release')==R(x,'m_release'))
OK,UNMAINT,OBSOLET,OUTOFDATE,NEWBUILD='OK','UNMAINT','OBSOLET','OUTOFDATE','NEWBUILD'
CODE=dict(OK=0,UNMAINT=1,OBSOLET=2,REPLACE=3,CONFLICT=4,OUTOFDATE=5,NEWBUILD=6,NEW=7)
MEMBER=dict(OK='m_packagesOK',UNMAINT='m_packagesUnMaint',OBSOLET='m_packagesObsolet',OUTOFDATE='m_packagesOutOfDate',NEWBUILD='m_packagesNewBuild')
def is_(c,inst,x):
    e=rdom(x); u=unchanged(inst,x); s=samever(inst,x); d=I_(inst,x,'m_dependency')
    return {OK:And(e,u),NEWBUILD:And(e,Not(u),s),OUTOFDATE:And(e,Not(u),Not(s)),OBSOLET:And(Not(e),d),UNMAINT:And(Not(e),Not(d))}[c]
def cls(inst,x):
    r=z3.IntVal(CODE[UNMAINT])
    for c in (OK,NEWBUILD,OUTOFDATE,OBSOLET): r=z3.If(is_(c,inst,x),z3.IntVal(CODE[c]),r)
    return r
# how many of the packages of a set are in a class: nothing for the empty set, and one step per package added
def card(c,inst,S): return z3.Function('how_many_'+c,sort(MT),S.sort(),I)(inst,S)
def hint(ex,st,h,mods):
    out=[]; inst=g(ex,st,'dp_inst'); x,=qs('x')
    ks=[k for k in mods if isinstance(get(h,k),It) and get(h,k).kind=='key' and spec.strip_ref(get(h,k).cty)==MT]
    if not ks: return out
    k=ks[0]
    def at(c,v,m):
        if m=='init': return z3.IntVal(0)
        if m=='step':
            S,key=v[k].arg(0),v[k].arg(1); q=card(c,inst,S); return z3.If(is_(c,inst,key),q+1,q)
        return card(c,inst,v[k])
    for l in mods:
        y=get(h,l)
        if l[0]!='l' or not isinstance(y,T): continue
        f=str(l[2][-1][-1]).split('::')[-1] if l[2] else ''
        for c,mb in MEMBER.items():
            if f==mb: out.append(('%s counts its class'%f,lambda v,m,l=l,c=c: v[l]==at(c,v,m)))
        if f==MP: out.append(('the packages stay',lambda v,m,l=l: v[l]==inst if v[l].sort()==sort(MT) else v[l]==REPO()))
        if y.ty and spec.strip_ref(y.ty)==MD:
            out.append(('exactly the packages passed are in the report',lambda v,m,l=l: mdom(v[l],MD)==v[k]))
            out.append(('every package passed has its class',lambda v,m,l=l: fa([x],Implies(z3.Select(v[k],x),fld(z3.Select(mval(v[l],MD),x),PM,'status')==cls(inst,x)),z3.Select(v[k],x))))
    return out
P='C16'
FX=('g:fs_ex','g:removed','g:wst','g:waited','g:childpid','g:fs_lines','g:wrote','g:fs_synced','g:locked','g:_inerr','g:execd','g:extracted')
def light(sig,**k): return over(P,Con(sig,throws=k.pop('throws',RT),**k))
light('cards::conf::conf(cref(str))',mods=('this',),trusted='reads the configuration')
light('cards::sync::sync(cref(str),cref(bool))',mods=('this',)+FX,trusted='downloads the indexes (C22 to C25 cover how)')
INDEX=lambda c: [('the index entries',Eq(c.n(MP).t,REPO()))]
light('cards::pkgrepo::pkgrepo(cref(str))',mods=('this',)+FX,post=INDEX,trusted='loads the indexes (C19); they do not change while the command runs')
def bd(c):
    x,=qs('x'); P=c.n(PK).t
    vt=fa([x],Implies(vtext(I_(P,x,'m_version'),I_(P,x,'m_release'))==vtext(R(x,'m_version'),R(x,'m_release')),samever(P,x)),z3.Select(mdom(REPO(),MR),x))
    return [('the packages are the listed ones (C09)',Eq(mdom(P,MT),c.n('m_listOfPackagesNames').t)),('version-release is one text for one version and release',vt)]
light('pkgdbh::buildDatabase(cref(bool))',mods=('this',)+FX,ghost={'g:dp_inst':lambda c: c.n(PK).t},post=bd,trusted='loads the packages (C09)')
loaded=lambda c: [('the index is loaded',Eq(c.o(MP).t,REPO()))]
known=lambda c: loaded(c)+[('the package is in the index',rdom(c.a(0).t))]
kept=lambda c: [('the index stays',Eq(c.n(MP).t,REPO()))]
light('cards::pkgrepo::parse()',mods=(MP,),pre=loaded,post=kept,trusted='loads the indexes (C19); they do not change while the command runs')
def getter(n,field,ty=lambda t: t,mods=()):
    light('cards::pkgrepo::%s(cref(str))'%n,pre=known,post=lambda c:kept(c)+[('it is the one of the index',c.ret.t==ty(R(c.a(0).t,field)))],mods=(MP,)+mods)
light('cards::pkgrepo::checkBinaryExist(cref(str))',pre=loaded,post=lambda c:kept(c)+[('in the index',c.ret.t==rdom(c.a(0).t))],mods=(MP,))
getter('getBinaryBuildTime','m_build'); getter('release','m_release'); # version() returns a reference: looked into
for n_ in('getSpace','getSize'): light('cards::pkgrepo::%s(cref(str))'%n_,pre=known,post=kept,mods=(MP,))
for n_ in('getSpace','getSize'): light('cards::pkgrepo::%s(cref(str))'%n_,pre=known,post=kept,mods=(MP,))
def counts(c):
    inst=c.gn('dp_inst'); x,=qs('x'); D=mdom(inst,MT); td=c.n('m_listOfPackagesToDeal')
    out=[('%s counts its class'%mb,c.n(mb).t==card(k,inst,D)) for k,mb in MEMBER.items()]
    out+=[('%s is zero'%m,c.n(m).t==0) for m in('m_packagesConflict','m_packagesReplace','m_packagesNew')]
    out.append(('exactly the installed packages are in the report',Eq(mdom(td.t,td.ty),D)))
    out.append(('every installed package has its class',fa([x],Implies(z3.Select(D,x),fld(z3.Select(mval(td.t,td.ty),x),PM,'status')==cls(inst,x)),z3.Select(D,x))))
    out.append(('the packages stay',Eq(c.n(PK).t,inst)))
    return out
def entry(ex,st,this,args): sorts(); g(ex,st,'dp_inst')
root(P,light('cards::diff::diff(cref(rec:CardsArgumentParser),cref(str))',mods=('this','g:dp_inst')+FX,post=counts,setup=entry,opts={'hints':hint,'noauto':('',),'hint_ms':3000}))
ALLM=['m_packagesConflict','m_packagesObsolet','m_packagesReplace','m_packagesOutOfDate','m_packagesNewBuild','m_packagesNew','m_packagesUnMaint']
def total(c):
    s=z3.IntVal(0)
    for m in ALLM: s=s+c.o(m).t
    return [('the total is the sum of all classes but the unchanged',c.ret.t==s%W32)]
root(P,light('cards::diff::size()',post=total,mods=(),throws=False))
for m,f in (('packagesConflict','m_packagesConflict'),('packagesReplace','m_packagesReplace'),('packagesObsolet','m_packagesObsolet'),('packagesOutOfDate','m_packagesOutOfDate'),('packagesNewBuild','m_packagesNewBuild'),('packagesUnMaint','m_packagesUnMaint'),('packagesOK','m_packagesOK')):
    root(P,light('cards::diff::%s()'%m,post=lambda c,f=f:[('the counter',Eq(c.ret.t,c.o(f).t))],mods=(),throws=False))
