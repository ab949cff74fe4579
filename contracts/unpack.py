"""C05: unpacking keeps kept files and puts the package's copy into the rejected area."""
from contracts.base import *
from contracts.common import RT
from contracts.text import eqv
from contracts.fileutil import MODE,ST,fmt
from lib import flen,epath,emode,arent,arn
from loops import get
import loops
P='C05'
nf=z3.Function('pathnf',Str,Str); nfc=z3.Function('pathnfc',Str,Str,Str); nsl=z3.Function('noslash',Str,I); REAL=z3.Function('realdir',Str,Str)
def ax():
    a,b=qs('a','b'); t=scat(a,b)
    # two paths have the same normal form when they differ only in doubled slashes; collapsing slashes keeps every other character
    solve.EXTRA_AX.append((('sameslash','pathnf'),[z3.ForAll([a,b],Implies(eqv(a,b),And(nf(a)==nf(b),nsl(a)==nsl(b))),patterns=[eqv(a,b)])]))
    solve.EXTRA_AX.append((('pathnf',),[z3.ForAll([a,b],nf(t)==nfc(nf(a),b),patterns=[nf(t)]),z3.ForAll([a],nsl(a)>=0,patterns=[nsl(a)]),z3.ForAll([a,b],nsl(t)==nsl(a)+nsl(b),patterns=[t])]))
ax()
REJ='/var/lib/pkg/rejected'
solve.EXTRA_AX.append((('pathnf',),[nsl(lit(REJ))==18,nsl(lit(REJ[1:]))==18,nsl(lit('/'))==0,nsl(lit(''))==0,nsl(lit(REJ+'/'))==18]))

nsn=z3.Function('noslashnf',Str,I)
def ax2():
    a,=qs('a'); solve.EXTRA_AX.append((('pathnf',),[z3.ForAll([a],nsl(a)==nsn(nf(a)),patterns=[nf(a)])]))
ax2()
def ex_ax():
    a,b=qs('a','b'); solve.EXTRA_AX.append((('pathnfc',),[z3.ForAll([a,b],nsn(nfc(a,b))==nsn(a)+nsl(b),patterns=[nfc(a,b)])]))
ex_ax()
lib.GS['c5_done']=z3.ArraySort(I,B); lib.GS['_c5h']=Opq; lib.GS['_cwd']=Str
g=lambda ex,st,n: ex.g(st,n,lib.gsort(n))
LB=lib.LIB
def hd(ex,st,a):
    v=ex.load(st,a); return v.t if isinstance(v,(T,Raw)) else pack(v)
def x_open(ex,st,fn,obj,a,e):
    h=hd(ex,st,a[0]); st.ghost['_c5h']=h; r=LB.f_archive_read_open_filename(ex,st,a,e,fn); return r
def x_extract(ex,st,fn,obj,a,e):
    ex.oblige(st,hd(ex,st,a[0])==g(ex,st,'_c5h'),'entries come from the archive opened','effect'); return LB.f_archive_read_extract(ex,st,a,e,fn)
def setup(ex,st,this,args):
    r=ex.read(st,this.f('pkgdbh::m_root','str')).t
    ex.c5=dict(root=REAL(r),keep=ex.load(st,args[1]).t,non=ex.load(st,args[2]).t,file=ex.load(st,args[0]).t); st.ghost['c5_done']=z3.K(I,FALSE); st.assume(Not(g(ex,st,'_arerr')),arn(ex.c5['file'])>=0)
def own(ex,n): return nfc(nf(ex.c5['root']),cat(lit('/'),n))
def rejd(ex): return nfc(nf(ex.c5['root']),lit(REJ))
def rejp(ex,n): return nfc(rejd(ex),cat(lit('/'),n))
def pos(ex,st): return Select(g(ex,st,'_arpos'),g(ex,st,'_c5h'))
def cur(ex,st): return epath(arent(ex.c5['file'],pos(ex,st)-1))
def kept(ex,st,n):
    o,=qs('o'); return And(Select(ex.c5['keep'],n),z3.Exists([o],And(nf(o)==own(ex,n),Select(g(ex,st,'fs_ex'),o))))
def equalfiles(ex,st,a,b):
    E=g(ex,st,'fs_ex'); j=z3.Int('j!eq'); k=lambda n: And(fmt(a)==n,fmt(b)==n)
    return And(Select(E,a),Select(E,b),MODE(a)==MODE(b),ST('uid')(a)==ST('uid')(b),ST('gid')(a)==ST('gid')(b),z3.Or(fmt(a)==4,(emode(arent(ex.c5['file'],pos(ex,st)-1))/4096)%16==4,And(fmt(a)==8,ST('size')(a)==0),SAME(a,b)))
SAME=z3.Function('samecontent',Str,Str,B)
def deletion(ex,st,p):
    o,=qs('o'); n=cur(ex,st); ex.oblige(st,nf(p)==rejp(ex,n),'only the rejected copy of the entry at hand is deleted','effect')
    ex.oblige(st,z3.Exists([o],And(nf(o)==own(ex,n),equalfiles(ex,st,p,o))),'the rejected copy is deleted only if it equals what is kept','effect')
def effect(ex,st,k,p,p2):
    if k=='extract':
        n=cur(ex,st); i=pos(ex,st)-1
        ex.oblige(st,p2==arent(ex.c5['file'],i),'the entry at hand is unpacked','effect'); ex.oblige(st,And(i>=0,Not(Select(g(ex,st,'c5_done'),i))),'each entry is unpacked once','effect')
        ex.oblige(st,Not(Select(ex.c5['non'],n)),'an excluded entry is not written','effect')
        ex.oblige(st,z3.Or(nf(p)==own(ex,n),nf(p)==rejp(ex,n)),'an entry goes to its own path or to its place in the rejected area','effect')
        ex.oblige(st,Implies(nf(p)==own(ex,n),Not(And(Select(ex.c5['keep'],n),Select(g(ex,st,'fs_ex'),p)))),'a kept file that exists is not overwritten','effect')
        ex.oblige(st,Implies(nf(p)==rejp(ex,n),kept(ex,st,n)),'only what is kept goes to the rejected area','effect')
        st.ghost['c5_done']=z3.Store(g(ex,st,'c5_done'),i,TRUE)
    elif k in('remove','unlink','rmdir'): deletion(ex,st,p)
    elif k not in('chdir','close'): ex.oblige(st,FALSE,'nothing else is changed','effect')
def calls(ex,st,con,c):
    if con.sig.startswith('removeFile('): ex.oblige(st,nf(c.a(0).t)==rejd(ex),'cleaning up stops at the rejected area','effect'); deletion(ex,st,c.a(1).t)
def hint(ex,st,h,mods):
    k=z3.Int('k!c5'); P=('g','_arpos'); D=('g','c5_done'); H=g(ex,h,'_c5h'); f=ex.c5['file']
    if P not in mods: return []
    p=lambda v: Select(v[P],H)
    return [('position in the archive',lambda v,m: And(0<=p(v),p(v)<=arn(f))),
      ('each entry passed was excluded or unpacked',lambda v,m: fa([k],Implies(z3.And(0<=k,k<p(v)),z3.Or(Select(ex.c5['non'],epath(arent(f,k))),Select(v[D],k))),epath(arent(f,k)))),
      ('entries ahead are not unpacked yet',lambda v,m: fa([k],Implies(k>=p(v),Not(Select(v[D],k))),Select(v[D],k)))]
def post(c):
    ex=c.ex; k=z3.Int('k!c5'); f=ex.c5['file']; n=Select(c.gn('_arpos'),c.gn('_c5h'))
    return [('works from inside the root',c.gn('_cwd')==ex.c5['root']),('every entry was excluded or unpacked, unless the archive cannot be read',Or(c.gn('_arerr'),fa([k],Implies(z3.And(0<=k,k<arn(f)),z3.Or(Select(ex.c5['non'],epath(arent(f,k))),Select(c.gn('c5_done'),k))),epath(arent(f,k)))))]
def light(sig,**k): return over(P,Con(sig,throws=k.pop('throws',RT),**k))
light('checkFilesEqual(cref(str),cref(str))',throws=False,post=lambda c:[('equal only if they really are',Implies(c.ret.t,SAME(c.a(0).t,c.a(1).t)))],trusted='true only when both exist and have the same content (proved as C26)')
IA='pkgdbh::installArchivePackage(cref(str),cref(std::set(str)),cref(std::set(str)))'
root(P,light(IA,mods=('m_actualError','m_actualAction','m_installedFilesNumber','g:fs_ex','g:wrote','g:extracted','g:removed','g:c5_done'),post=post,setup=setup,opts={'effect':effect,'calls':calls,'ext':{'archive_read_open_filename':x_open,'archive_read_extract':x_extract},'hints':hint}))

NOTES[P]=['libarchive: read_next_header returns the entries of the archive in order, extract writes the current entry at the path given; ARCHIVE_WARN or worse from a header ends the reading (and the postcondition says so)',
  'paths: two texts that differ only in doubled slashes name the same file; entry names have no ".." components and paths no links between them; a relative path is resolved against the directory entered by chdir only for the entry itself',
  'checkFilesEqual is true only for equal contents (C26)','for a non-directory, "equal content" may also be an empty rejected copy, as the statement says']
