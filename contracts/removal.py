"""C01, C02: what removing a package deletes."""
from contracts.base import *
def files(c,v,x,m):
    """x is recorded by package m of the package table v"""
    e=unpack(Select(mval(v.t,v.ty),m),ptype(v.ty)[1][1]); f=[k for k in e.f if k.endswith('::files')][0]
    return And(Select(mdom(v.t,v.ty),m),z3.Select(e.f[f].t,x))
def rm_post(keep):
    def post(c):
        p,f,m=qs('p','f','m')
        pk=c.o('m_listOfPackages'); nk=c.n('m_listOfPackages'); nm=c.a(0).t; root=c.o('m_root').t
        ex_=c.go('fs_ex'); r0=c.go('removed'); r1=c.gn('removed')
        own=files(c,pk,f,nm)
        others=z3.Exists([m],z3.And(m!=nm,files(c,pk,f,m)))
        kp=z3.Select(c.a(1).t,f) if keep else FALSE
        want=z3.Exists([f],And(own,z3.Not(others),Not(kp),p==cat(root,f),z3.Select(ex_,p)))
        return [('only existing files of the package that nobody else records (and that are not kept) are deleted',z3.ForAll([p],z3.Implies(z3.Select(r1,p),z3.Or(z3.Select(r0,p),want)))),
                ('every such file is deleted',z3.ForAll([p],z3.Implies(z3.Or(z3.Select(r0,p),want),z3.Select(r1,p)))),
                ('the package is no longer listed',Not(Select(mdom(nk.t,nk.ty),nm))),
                ('every other package is still listed',z3.ForAll([m],z3.Implies(m!=nm,z3.Select(mdom(nk.t,nk.ty),m)==z3.Select(mdom(pk.t,pk.ty),m)))),
                ('every other record is unchanged',z3.ForAll([m],z3.Implies(z3.And(m!=nm,z3.Select(mdom(pk.t,pk.ty),m)),z3.Select(mval(nk.t,nk.ty),m)==z3.Select(mval(pk.t,pk.ty),m)))),
                ]
    return post
def order_hook(ex,st,k,p,p2):
    if k in('remove','unlink','rmdir'):
        q=z3.Const('q!o',Str)
        r0=ghost0('removed',lib.gsort('removed')); r=ex.g(st,'removed',lib.gsort('removed'))
        ex.oblige(st,z3.ForAll([q],z3.Implies(z3.And(z3.Select(r,q),z3.Not(z3.Select(r0,q))),z3.Not(sunder(p,q)))),'contents are deleted before their directory','effect')
RM_MODS=('m_filesList','m_listOfPackages','m_listOfAlias','m_packageName','m_actualAction','g:removed','g:fs_ex')
add(Con('pkgdbh::removePackageFiles(cref(str))',mods=RM_MODS,post=rm_post(False),opts={'effect':order_hook}),'C01')
add(Con('pkgdbh::removePackageFiles(cref(str),cref(std::set(str)))',mods=RM_MODS,post=rm_post(True),opts={'effect':order_hook}),'C02')
