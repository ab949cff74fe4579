"""C10: a refused installation changes nothing."""
from contracts.base import *
from contracts.common import RT
from contracts.records import fld
import copy
for n,s in (('ar_name',Str),('ar_arch',Str),('ar_n',I),('conflicts',B),('checked',B)): lib.GS[n]=s
SPEC_GHOSTS=('g:locked','g:_inerr','g:ar_name','g:ar_arch','g:ar_n','g:conflicts','g:checked')
def changes(con): return [m for m in con.mods if m.startswith('g:') and m not in SPEC_GHOSTS]
def forbid(ex,st,k,p,p2):
    if k in('chdir','close'): return
    ex.oblige(st,FALSE,'deciding does not %s anything'%k,'effect')
def forbid_calls(ex,st,con,c):
    if changes(con): ex.oblige(st,FALSE,'deciding does not call %s'%con.sig.split('(')[0],'effect')
PURE={'effect':forbid,'calls':forbid_calls}
def clean(sig):
    c=copy.copy(C[sig]); c.opts=dict(c.opts,**PURE); return over('C10',c)
def light(sig,**k): return over('C10',Con(sig,opts=dict(PURE,noauto=('',)),**k))
for s in list(C):
    if s.startswith('archive::') and not C[s].trusted: clean(s)
_g={'g:ar_name':lambda c: c.n('m_packageName').t,'g:ar_arch':lambda c: c.n('m_packageArch').t,'g:ar_n':lambda c: vlen(c.n('m_contentMtree').t,lib.VS)}
_a=C['archive::archive(cref(str))']; over('C10',Con(_a.sig,post=_a.post,mods=_a.mods,throws=_a.throws,opts=PURE,ghost=_g))
MACHINE=z3.Const('the_machine',Str)
over('C10',Con('getMachineType()',post=lambda c:[('the machine',Eq(c.ret.t,MACHINE))],mods=(),throws=False,trusted='the machine name reported by uname does not change'))
def arok(c,root): return Or(c('ar_arch')==MACHINE,Eq(c('ar_arch'),lit('any')),slen(root)>1)
def opened(c):
    return [('the name is the recorded one',Eq(pfst(c.ret.t,c.ret.ty),c.gn('ar_name'))),('it is not empty',Not(Eq(c.gn('ar_name'),lit('')))),('the archive is not empty',c.gn('ar_n')!=0),
            ('it is for this machine, or goes to another root',arok(c.gn,c.o('m_root').t))]
over('C10',Con('archive::listofDependenciesBuildDate()',mods=('m_actualError','m_rtDependenciesEpochList'),throws=RT,opts=dict(PURE,noauto=('',))))
from loops import get
def name_hint(ex,st,h,mods):
    return [('the name stays',lambda v,m,l=l,x=get(h,l),x0=get(st,l): pfst(v[l],x.ty)==pfst(x0.t,x.ty)) for l in mods if isinstance(get(h,l),T) and get(h,l).ty and kind(get(h,l).ty)=='pair' and isinstance(get(st,l),T)]
over('C10',Con('pkgdbh::openArchivePackage(cref(str))',opts=dict(PURE,noauto=('',),hints=name_hint),ghost={'g:oa_files':lambda c: fld(psnd(c.ret.t,c.ret.ty),'rec:cards::db','files')},mods=('m_filesNumber','m_packageArchiveCollection','m_packageArchiveVersion','m_packageArchiveRelease','m_packageName','m_actualError','g:ar_name','g:ar_arch','g:ar_n'),post=opened,throws=RT))

SS=sort('std::set(str)')
for n,s in (('ai_in',SS),('ai_out',SS),('cf_files',SS),('cf_name',Str),('oa_files',SS)): lib.GS[n]=s
SPEC_GHOSTS+=('g:ai_in','g:ai_out','g:cf_files','g:cf_name','g:oa_files')
light('pkgdbh::readRulesFile()',mods=('m_actionRules','m_actualError'),throws=RT)
light('pkgadd::applyInstallRules(cref(str),ref(rec:cards::db),cref(std::vector(rec:rule_t)))',mods=('m_postInstallList','m_actualError','arg1'),throws=RT,ghost={'g:ai_in':lambda c: c.of(c.a(1),'files').t,'g:ai_out':lambda c: c.of(c.an(1),'files').t})
light('pkgadd::getKeepFileList(cref(std::set(str)),cref(std::vector(rec:rule_t)))',mods=('m_actualError',),throws=RT)
_x=z3.Const('x!cf',Str)
light('pkgdbh::getConflictsFilesList(cref(str),ref(rec:cards::db))',mods=(),throws=False,ghost={'g:checked':lambda c: TRUE,'g:conflicts':lambda c: z3.Exists([_x],z3.Select(c.ret.t,_x)),'g:cf_files':lambda c: c.of(c.a(1),'files').t,'g:cf_name':lambda c: c.a(0).t})
for s in ('pkgdbh::removePackageFiles(cref(str))','pkgdbh::removePackageFiles(cref(str),cref(std::set(str)))','pkgdbh::removePackageFilesRefsFromDB(cref(str))','pkgdbh::removePackageFilesRefsFromDB(std::set(str),cref(std::set(str)))',
          'pkgdbh::installArchivePackage(cref(str),cref(std::set(str)),cref(std::set(str)))','pkgdbh::moveMetaFilesPackage(cref(str),ref(rec:cards::db))',
          'pkgdbh::extractAndRunPREfromPackage(cref(str))'):
    over('C10',Con(s,mods=('this','g:effects')+(('arg1',) if 'moveMeta' in s else ()),throws=RT,trusted='only when it is called matters here: whatever it does counts as a change; it does not change the fields of a derived class'))
lib.GS['effects']=B
def entry(ex,st,this,args): ex.entry=st.cp()
def fld0(ex,n):
    o=ex.read(ex.entry,ex.fnstack[0]['this']); return [v for k,v in o.f.items() if k.split('::')[-1]==n][0]
UID=z3.Const('the_uid',I)
def accepted(ex,st,script):
    g=lambda n: ex.g(st,n,lib.gsort(n)); f=lambda n: fld0(ex,n).t; al=fld0(ex,'m_listOfAlias'); pk=fld0(ex,'m_listOfPackages')
    inst=Select(mdom(al.t,al.ty),g('ar_name')); conf=g('conflicts')
    l=[('the caller is root, if scripts are run',Or(Not(f('m_runPrePost')),UID==0)),('the archive is not empty',g('ar_n')!=0),('the package has a name',Not(Eq(g('ar_name'),lit('')))),
       ('the package is for this machine, or goes to another root',arok(g,f('m_root'))),('no package is installed a second time',Or(f('m_upgrade'),Not(inst))),('only an installed package is upgraded',Or(Not(f('m_upgrade')),Select(mdom(pk.t,pk.ty),g('ar_name'))))]
    if not script: l+=[('conflicts have been looked for',g('checked')),('for this package',Eq(g('cf_name'),g('ar_name'))),('among the files it installs',And(Eq(g('ai_in'),g('oa_files')),Eq(g('cf_files'),g('ai_out')))),('conflicting files are overwritten only if forced',Or(f('m_force'),Not(conf)))]
    return l
def run_calls(ex,st,con,c):
    if not changes(con): return
    sc='extractAndRunPRE' in con.sig
    for n,f in accepted(ex,st,sc): ex.oblige(st,f,'before %s: %s'%(con.sig.split('(')[0],n),'effect')
def run_effect(ex,st,k,p,p2):
    if k in('chdir','close'): return
    for n,f in accepted(ex,st,False): ex.oblige(st,f,'before %s: %s'%(k,n),'effect')
def listed(c):
    al=c.n('m_listOfAlias'); pk=c.n('m_listOfPackages'); n=c.gn('ar_name')
    return [('the package is known as installed from now on',And(Select(mdom(al.t,al.ty),n),Select(mdom(pk.t,pk.ty),n)))]
def listed_hint(ex,st,h,mods):
    out=[]
    for l in mods:
        x=get(h,l)
        if l[0]=='l' and l[2] and l[2][-1][1]=='pkgdbh::m_listOfAlias': out.append(('the package is known',lambda v,m,l=l,x=x,n=ex.g(st,'ar_name',Str): Select(mdom(v[l],x.ty),n)))
    return out
root('C10',over('C10',Con('pkgadd::run()',setup=entry,pre=lambda c:[('nothing looked for yet',Not(c.go('checked')))],mods=('this','g:effects')+SPEC_GHOSTS+('g:fs_ex','g:removed','g:wst','g:waited','g:childpid','g:fs_lines','g:wrote','g:fs_synced'),post=listed,throws=RT,opts={'effect':run_effect,'calls':run_calls,'noauto':('',),'hints':listed_hint})))
over('C10',Con('pkgdbh::buildDatabase(cref(bool))',mods=('this','g:effects'),throws=RT,trusted='only when it is called matters here: opening the database counts as a change'))
def uid_calls(ex,st,con,c):
    if changes(con): ex.oblige(st,UID==0,'only root gets to %s'%con.sig.split('(')[0],'effect')
def asroot(sig,**k):
    root('C10',over('C10',Con(sig,mods=('this','g:effects'),post=lambda c:[('returns only for root',UID==0)],throws=RT,opts={'effect':forbid,'calls':uid_calls,'noauto':('',)},**k)))
asroot('pkgadd::parseArguments(i32,ptr(ptr(char)))')
asroot('cards::install::parseArguments()')
