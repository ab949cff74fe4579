"""C21: child processes."""
from contracts.base import *
def wexited(w): return w%128==0
def wcode(w): return (w/256)%256
def outcome(c):
    w,ok=c.gn('wst'),c.gn('waited')
    return [('success only for a child that was waited for and exited with zero',z3.Implies(c.ret.t==0,And(ok,wexited(w),wcode(w)==0))),
            ('an exit status is returned as is',z3.Implies(And(ok,wexited(w)),c.ret.t==wcode(w)))]
def onexit(ex,st,code): return [('a child that cannot run its program does not exit with zero',code%256!=0)]
def hook(ex,st,k,p,p2):
    if k!='exec': return
    fr=ex.fnstack[0]; this=fr['this']; app=ex.read(st,this.f('process::m_application','str')).t; ar=ex.read(st,this.f('process::m_arguments','str')).t
    if p2 is None: ex.oblige(st,Eq(p,app),'the requested program is run','effect')
    else: ex.oblige(st,And(Eq(p2[-2],cat(app,cat(lit(' '),ar))),Eq(p2[-3],lit('-c')),TRUE if p2[-1] is None else FALSE),'the shell is given the requested command','effect')
G=('g:wst','g:waited','g:childpid')
for n in('exec','execLog'): add(Con('process::%s(i32,ptr(ptr(char)))'%n,post=outcome,mods=G,throws=False,opts={'onexit':onexit,'effect':hook}),'C21')
for n in('execShell','execShellLog'): add(Con('process::%s(ptr(char))'%n,post=outcome,mods=G,throws=False,opts={'onexit':onexit,'effect':hook}),'C21')
for n in('execute','executeShell'): add(Con('process::%s()'%n,post=outcome,mods=G,throws=False,opts={'onexit':onexit}),'C21')
