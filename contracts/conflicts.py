"""C03: conflict lists."""
from contracts.base import *
from contracts.removal import files
def last(t): return strat(t,slen(t)-1)
def post(c):
    f,m=qs('f','m')
    pk=c.o('m_listOfPackages'); nm=c.a(0).t; root=c.o('m_root').t; info=c.of(c.a(1),'files').t; ex_=c.go('fs_ex')
    other=z3.Exists([m],z3.And(m!=nm,files(c,pk,f,m)))
    want=z3.And(z3.Select(info,f),last(f)!=47,z3.Or(other,z3.Select(ex_,cat(root,f))),Not(files(c,pk,f,nm)))
    nk=c.n('m_listOfPackages')
    return [('only conflicting files are reported',z3.ForAll([f],z3.Implies(z3.Select(c.ret.t,f),want))),
            ('every conflicting file is reported',z3.ForAll([f],z3.Implies(want,z3.Select(c.ret.t,f))))]
def pre(c):
    f,=qs('f')
    return [('no empty path in the file list',Not(z3.Select(c.of(c.a(1),'files').t,lit(''))))]
add(Con('pkgdbh::getConflictsFilesList(cref(str),ref(rec:cards::db))',pre=pre,post=post,mods=(),throws=False),'C03')
