"""C12: operations on an alternative root stay inside it."""
from contracts.base import *
from contracts.common import RT
from contracts.fileutil import strip,striphint
from contracts.unpack import REAL
from loops import get
P='C12'
OPR=z3.Const('the_alternative_root',Str)          # the root the operation works on
bb=z3.Function('belowroot',Str,Str,B)             # bb(strip(r),p): the text p names r itself or something below it
rel=lambda p: z3.Or(slen(p)==0,strat(p,0)!=47)
def ends(b): return z3.And(slen(b)>0,strat(b,slen(b)-1)==47)
def ax():
    b,x,p,c=qs('b','x','p','c'); t=scat(b,x)
    solve.EXTRA_AX.append((('belowroot',),[
      z3.ForAll([b,x],Implies(Or(ends(b),And(slen(b)>0,slen(x)>0,strat(x,0)==47)),bb(strip(b),t)),patterns=[z3.MultiPattern(strip(b),t)]),
      # the parent of a path below a directory is that directory or still below it (dirname removes the last component and the slashes around it)
      z3.ForAll([c,p],Implies(And(bb(c,p),strip(p)!=c),bb(c,lib.sdirname(p))),patterns=[bb(c,lib.sdirname(p))]),
      # the parent of a relative path is relative
      z3.ForAll([p],Implies(rel(p),rel(lib.sdirname(p))),patterns=[lib.sdirname(p)])]))
ax()
g=lambda ex,st,n: ex.g(st,n,lib.gsort(n))
def inroot(p,cwd): return Or(bb(strip(OPR),p),And(cwd==REAL(OPR),rel(p)))
def effect(ex,st,k,p,p2):
    if k=='chdir': ex.oblige(st,z3.BoolVal(bool(ex.opts.get('chdir'))),'the working directory is not changed','effect')
    if k in('chdir','close','flush','sync','fork','exec','flock','lock'): return
    for x in (p,p2):
        if x is not None and isinstance(x,z3.ExprRef) and x.sort()==Str: ex.oblige(st,inroot(x,g(ex,st,'_cwd')),'what %s changes lies under the root'%k,'effect')
G=('g:fs_ex','g:wrote','g:fs_synced','g:fs_lines','g:removed','g:extracted','g:wst','g:waited','g:childpid','g:execd','g:_inerr')
ROOT=[('a root is a directory name ending in a slash',ends(OPR))]
at=lambda c: [('works on the root',Eq(c.o('m_root').t,OPR)),ROOT[0]]
same=lambda c: [('the root is kept',Eq(c.n('m_root').t,OPR))]
inside=lambda c: at(c)+[('works from inside the root',c.go('_cwd')==REAL(OPR))]
def light(sig,pre=at,mods=(),post=same,**k):
    o=dict(k.pop('opts',{})); o.setdefault('effect',effect); o.setdefault('noauto',('',)); o.setdefault('hints',keep)
    return over(P,Con(sig,mods=('this',)+G+tuple(mods),pre=pre,post=post,throws=k.pop('throws',RT),opts=o,**k))
def keep(ex,st,h,mods):
    return [('the root is kept',lambda v,m,l=l: v[l]==OPR) for l in mods if l[0]=='l' and l[2] and l[2][-1][1]=='pkgdbh::m_root']
def relhint(ex,st,h,mods):
    out=keep(ex,st,h,mods); x,=qs('x')
    for l in mods:
        y=get(h,l)
        if isinstance(y,T) and y.t.sort()==z3.ArraySort(Str,B) and l[0]=='l' and not l[2]: out.append(('only relative names are collected',lambda v,m,l=l: fa([x],Implies(z3.Select(v[l],x),rel(x)),z3.Select(v[l],x))))
    return out
def namehint(ex,st,h,mods):
    out=keep(ex,st,h,mods)
    for l in mods:
        x,x0=get(h,l),get(st,l)
        if isinstance(x,T) and x.ty and kind(x.ty)=='pair' and isinstance(x0,T): out.append(('the name stays',lambda v,m,l=l,x=x,x0=x0: pfst(v[l],x.ty)==pfst(x0.t,x.ty)))
        if isinstance(x,T) and x.ty and kind(x.ty)=='map' and isinstance(x0,T): out.append(('the packages listed stay the same',lambda v,m,l=l,x=x,x0=x0: mdom(v[l],x.ty)==mdom(x0.t,x.ty)))
    for l in mods:
        x,x0=get(h,l),get(st,l)
        if isinstance(x,T) and x.ty and kind(x.ty)=='map' and isinstance(x0,T):
            for l2 in mods:
                y,y0=get(h,l2),get(st,l2)
                if isinstance(y,T) and y.ty and kind(y.ty)=='pair' and isinstance(y0,T): out.append(('at most the package at hand is added',lambda v,m,l=l,x=x,x0=x0,y=y,y0=y0: Or(mdom(v[l],x.ty)==mdom(x0.t,x.ty),mdom(v[l],x.ty)==z3.Store(mdom(x0.t,x.ty),pfst(y0.t,y.ty),TRUE))))
    return out
def s25(ex,st,this,args): ex.c25=[('the base',args[0].t if isinstance(args[0],T) else ex.read(st,args[0]).t),('the file',args[1].t if isinstance(args[1],T) else ex.read(st,args[1]).t)]
root(P,over(P,Con('removeFile(cref(str),cref(str))',mods=('g:removed','g:fs_ex'),throws=False,setup=s25,
  pre=lambda c: ROOT+[('the base is the root',strip(c.a(0).t)==strip(OPR)),('the file lies under the root',inroot(c.a(1).t,c.go('_cwd')))],opts={'hints':striphint,'effect':effect,'noauto':('',)})))
root(P,over(P,Con('cleanupMetaFiles(cref(str))',mods=('g:removed','g:fs_ex'),throws=False,pre=lambda c: ROOT+[('the base is the root',c.a(0).t==OPR)],opts={'effect':effect,'noauto':('',)})))
for s in ('pkgdbh::removePackageFiles(cref(str))','pkgdbh::removePackageFiles(cref(str),cref(std::set(str)))','pkgdbh::removePackageFilesRefsFromDB(cref(str))',
  'pkgdbh::buildDatabase(cref(bool))','pkgdbh::getListOfPackagesNames()'): root(P,light(s))
root(P,light('pkgdbh::extractAndRunPREfromPackage(cref(str))',opts={'chdir':True},mods=('g:_cwd','g:_arpos','g:_arpath','g:_arerr','g:_entpath')))
root(P,light('pkgdbh::moveMetaFilesPackage(cref(str),ref(rec:cards::db))',pre=inside,mods=('arg1',),opts={'hints':relhint}))
root(P,light('pkgadd::postRun()',pre=inside))
root(P,over(P,Con('pkgdbh::addPackageFilesRefsToDB(cref(str),cref(rec:cards::db))',pre=at,mods=('m_listOfPackages','m_actualError')+G,throws=RT,opts={'effect':effect,'noauto':('',)},
  post=lambda c:[('only this package is recorded',mdom(c.n('m_listOfPackages').t,c.n('m_listOfPackages').ty)==z3.Store(mdom(c.o('m_listOfPackages').t,c.o('m_listOfPackages').ty),c.a(0).t,TRUE))])))
root(P,light('pkgdbh::removePackageFilesRefsFromDB(std::set(str),cref(std::set(str)))',opts={'hints':namehint}))
over(P,Con('archive::listofDependenciesBuildDate()',mods=('m_actualError','m_rtDependenciesEpochList'),throws=RT,opts=dict(effect=effect,noauto=('',))))
AR=('g:_arpos','g:_arpath','g:_arerr','g:_entpath')
for sg,m in (('pkgdbh::openArchivePackage(cref(str))',AR),('pkgadd::applyInstallRules(cref(str),ref(rec:cards::db),cref(std::vector(rec:rule_t)))',('arg1',)),('pkgdbh::getConflictsFilesList(cref(str),ref(rec:cards::db))',()),
  ('pkgadd::getKeepFileList(cref(std::set(str)),cref(std::vector(rec:rule_t)))',()),('pkgdbh::readRulesFile()',())): light(sg,mods=m)
over(P,Con('pkgdbh::installArchivePackage(cref(str),cref(std::set(str)),cref(std::set(str)))',pre=at,mods=('this','g:_cwd')+G+AR,post=lambda c: same(c)+[('works from inside the root',c.gn('_cwd')==REAL(OPR))],throws=RT,trusted='where unpacking writes, and that it enters the root, is C05'))
# the programs triggered after an installation are the root's own
def trig_calls(ex,st,con,c):
    if con.sig not in('process::execute()','process::executeShell()'): return
    app,ar=c.o('m_application').t,c.o('m_arguments').t
    ex.oblige(st,And(bb(strip(OPR),app),app!=OPR),'the program run lies under the root','effect')
    ex.oblige(st,Implies(app==cat(OPR,lit('usr/bin/ldconfig')),ar==cat(lit('-r '),OPR)),'the linker cache rebuilt is that of the root','effect')
root(P,light('pkgdbh::runLastPostInstall()',opts={'calls':trig_calls}))
root(P,light('pkgadd::run()',mods=('g:_cwd','g:locked')+AR))
NOTES[P]=['recorded file names and package names have no ".." components, and no links lead out of the root','a root is given as a directory name and kept with a slash at its end (that is how the commands build it); a relative root is resolved against the directory the command runs in',
  'dirname: the parent of a path below a directory is that directory or below it','where unpacking itself writes is C05; what the scripts of a package and the trigger programs do when run is outside (they run with the root as working directory)']
root(P,light('pkgrm::run()',mods=('g:locked',)))
