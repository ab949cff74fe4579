"""C11: changes to package files and records happen under the exclusive lock of the same root."""
from contracts.base import *
from contracts.common import RT
from contracts.text import eqv
OPR=z3.Const('the_root',Str)          # the root of the installation the command works on
def dbpath(root): return cat(cat(root,lit('/')),lit('var/lib/pkg/DB/'))
_d=z3.Const('d!lk',Opq)
def held(L,root=OPR): return z3.Exists([_d],z3.And(z3.Select(L,_d),eqv(dbpath(root),lib.dpath(_d))))
def free(L): return z3.ForAll([_d],Not(z3.Select(L,_d)))
def lk(ex,st): return ex.g(st,'locked',lib.gsort('locked'))
CHANGES=('remove','unlink','rmdir','rename','creat','open-write','mkdir','extract','write','chmod','chown','symlink','link')
def hook(ex,st,k,p,p2):
    if k in('chdir','close','flush','sync'): return
    ex.oblige(st,held(lk(ex,st)),'the exclusive lock is held when %s changes the filesystem'%k,'effect')
def script_hook(ex,st,k,p,p2):
    if k in('chdir','close'): return
    if k in('extract','remove'): ex.oblige(st,Or(Eq(p,lit('.PRE')),Eq(p,lit('./.PRE'))),'without the lock only the pre-install script is unpacked and removed','effect')
G=('g:fs_ex','g:wrote','g:fs_synced','g:fs_lines','g:removed','g:extracted','g:wst','g:waited','g:childpid','g:execd')
same=lambda c: [('the root is kept',Eq(c.n('m_root').t,c.o('m_root').t))]
atroot=lambda c: [('works on the root',Eq(c.o('m_root').t,OPR))]
locked=lambda c: atroot(c)+[('the exclusive lock of this root is held',held(c.go('locked')))]
def light(sig,pre=locked,hk=hook,throws=RT,mods=(),**k):
    o=dict(k.pop('opts',{})); o.setdefault('effect',hk); o.setdefault('noauto',('',))
    return over('C11',Con(sig,mods=('this',)+G+tuple(mods),pre=pre,post=same,xpost=same,throws=throws,opts=o,**k))
def lpost(c):
    L0,L1=c.go('locked'),c.gn('locked'); d=c.n('m_dir').t; k=z3.Const('k!lk',Opq)
    return [('the exclusive lock on the package database of this root is taken',Implies(c.a(1).t,And(Not(Eq(d,X.NULLP)),terms.sel(L1,d),eqv(dbpath(c.a(0).t),lib.dpath(d))))),
            ('nothing else is locked',fa([k],Implies(k!=d,z3.Select(L1,k)==z3.Select(L0,k)),z3.Select(L1,k)))]
def lx(c): return [('an error leaves nothing locked',z3.ForAll([_d],Implies(z3.Select(c.gn('locked'),_d),z3.Select(c.go('locked'),_d))))]
add(Con('cards::lock::lock(cref(str),bool)',post=lpost,xpost=lx,mods=('this','g:locked'),throws=RT),'C11')
add(Con('cards::lock::~lock()',post=lambda c:[('the lock is released',Or(Eq(c.o('m_dir').t,X.NULLP),Not(terms.sel(c.gn('locked'),c.o('m_dir').t)))),
    ('nothing else changes',fa([_d],Implies(_d!=c.o('m_dir').t,z3.Select(c.gn('locked'),_d)==z3.Select(c.go('locked'),_d)),z3.Select(c.gn('locked'),_d)))],mods=('this','g:locked'),throws=False),'C11')
for s in ('pkgdbh::removePackageFiles(cref(str))','pkgdbh::removePackageFiles(cref(str),cref(std::set(str)))','pkgdbh::removePackageFilesRefsFromDB(cref(str))',
          'pkgdbh::installArchivePackage(cref(str),cref(std::set(str)),cref(std::set(str)))'): light(s)
light('pkgdbh::moveMetaFilesPackage(cref(str),ref(rec:cards::db))',mods=('arg1',))
light('pkgdbh::extractAndRunPREfromPackage(cref(str))',pre=atroot,hk=script_hook)
light('pkgdbh::openArchivePackage(cref(str))',pre=atroot,hk=script_hook)
light('pkgadd::applyInstallRules(cref(str),ref(rec:cards::db),cref(std::vector(rec:rule_t)))',pre=atroot,mods=('arg1',))
light('pkgdbh::getConflictsFilesList(cref(str),ref(rec:cards::db))',pre=atroot)
light('pkgadd::getKeepFileList(cref(std::set(str)),cref(std::vector(rec:rule_t)))',pre=atroot)
light('pkgdbh::readRulesFile()',pre=atroot)
import copy
def also(sig,pre):
    c=copy.copy(C[sig]); p0=c.pre; c.pre=(lambda c_: C[sig].flist(p0(c_) if p0 else None)+pre(c_)); return over('C11',c)
def alsofx(sig):
    c=also(sig,locked); h0=c.opts.get('effect'); c.opts=dict(c.opts,effect=lambda ex,st,k,p,p2: (hook(ex,st,k,p,p2),h0(ex,st,k,p,p2) if h0 else None)); return c
alsofx('pkgdbh::addPackageFilesRefsToDB(cref(str),cref(rec:cards::db))')
c7=alsofx('pkgdbh::removePackageFilesRefsFromDB(std::set(str),cref(std::set(str)))'); c7.pre=locked; c7.post=None
also('removeFile(cref(str),cref(str))',lambda c:[('the lock is held, or the file is an installation script',Or(held(c.go('locked')),Eq(c.a(1).t,lit('.PRE')),Eq(c.a(1).t,lit('.POST')),Eq(c.a(1).t,lit('.'))))])
start=lambda c: atroot(c)+[('nothing is locked',free(c.go('locked')))]
done=lambda c: same(c)+[('nothing stays locked',free(c.gn('locked')))]
from loops import get
def keep_hint(ex,st,h,mods):
    out=[]
    for l in mods:
        if l[0]=='l' and l[2] and l[2][-1][1]=='pkgdbh::m_root': out.append(('the root is kept',lambda v,m,l=l,x=get(st,l).t: v[l]==x))
        if l==('g','locked'): out.append(('nothing is locked between two operations',lambda v,m,l=l: free(v[l])))
    return out
def rt(sig,**k): o=dict(k.pop('opts',{})); o['effect']=hook; o.update(noauto=('',),hints=keep_hint); root('C11',over('C11',Con(sig,mods=('this','g:locked')+G,pre=start,post=done,xpost=done,throws=RT,opts=o,**k)))
rt('pkgadd::run()')
rt('pkgrm::run()')

def kept_meta(ex,st,qn,r):
    """create is considered for a root that gets a package database (with no-meta there is none to lock)"""
    if not qn.endswith('OPT_NO_META'): return
    this=ex.read(st,ex.fnstack[0]['this']); ap=this.f[[k for k in this.f if k.endswith('::m_argParser')][0]]
    if isinstance(ap,LV): ap=ex.read(st,ap)
    u=lambda v: v if isinstance(v,Obj) else unpack(v.t,v.ty)
    so=[v for k,v in u(ap).f.items() if k.endswith('::m_setOptions')][0]; id_=[v for k,v in u(st.store[r]).f.items() if k.split('::')[-1]=='id'][0]
    st.assume(Not(Select(mdom(so.t,so.ty),id_.t)))
rt('cards::create::run()',opts={'global':kept_meta})
rt('cards::create::base()',opts={'global':kept_meta})
over('C11',Con('checkFilesEqual(cref(str),cref(str))',mods=('g:_inerr',),throws=False,opts={'noauto':('',)}))
over('C11',Con('archive::listofDependenciesBuildDate()',mods=('m_actualError','m_rtDependenciesEpochList'),throws=RT,opts={'noauto':('',)}))
solve.EXTRA_AX.append((('sdirname',lit('.PRE').decl().name()),[lib.sdirname(lit('.PRE'))==lit('.')])); solve.EXTRA_AX.append((('sdirname',lit('.POST').decl().name()),[lib.sdirname(lit('.POST'))==lit('.')])); solve.EXTRA_AX.append((('sdirname',),[lib.sdirname(lit('.'))==lit('.')]))
for s,w in (('cards::pkgrepo::generateDependencies(cref(std::pair(str,i64)))','selects and downloads packages; works on the repository object only'),('cards::diff::showInfo(bool)','prints the report')):
    over('C11',Con(s,mods=('this',),throws=RT,trusted=w))
light('pkgdbh::buildDatabase(cref(bool))')
rt('cards::upgrade::upgradePackages()')
