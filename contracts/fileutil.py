"""C25, C26, C27: file helpers."""
from contracts.base import *
from loops import get
from lib import fbyte,flen,slink
MODE=z3.Function('st_mode_of',Str,I)
ST=lambda n: z3.Function('st_%s_of'%n,Str,I)
def fmt(p): return (MODE(p)/4096)%16
def kinds(a,b): return And(fmt(a)==fmt(b))
def eqbytes(a,b,n):
    j=z3.Int('j!eb'); return fa([j],Implies(z3.And(0<=j,j<n),fbyte(a,j)==fbyte(b,j)),fbyte(a,j),fbyte(b,j))
def same(c,a,b):
    E=c.go('fs_ex'); ex_=And(terms.sel(E,a),terms.sel(E,b)); k=lambda n: And(fmt(a)==n,fmt(b)==n)
    return And(ex_,z3.Or(And(k(8),flen(a)==flen(b),eqbytes(a,b,flen(a))),And(k(10),slink(a)==slink(b)),And(z3.Or(k(2),k(6)),ST('rdev')(a)==ST('rdev')(b))))
def post(c):
    a,b=c.a(0).t,c.a(1).t
    return [('equal only if they really are',Implies(c.ret.t,same(c,a,b))),('equal whenever they are and can be read',Implies(And(same(c,a,b),Not(c.gn('_inerr'))),c.ret.t))]
def hint(ex,st,h,mods):
    """how far two files read in step agree"""
    out=[]; S=[]
    for l in mods:
        if l[0]=='l' and l[2] and l[2][-1][1]=='pos':
            r=[x for x in mods if x[:2]==l[:2] and x[2][:-1]==l[2][:-1]]; S.append((l,{x[2][-1][1]:x for x in r},get(h,('l',l[1],l[2][:-1]+((l[2][-1][0],'path'),))).t))
    for l,f,p in S:
        out.append(('read position within the file',lambda v,m,l=l,p=p: And(v[l]>=0,v[l]<=flen(p))))
        if 'eof' in f: out.append(('all is read at end of file',lambda v,m,l=l,f=f,p=p: Implies(v[f['eof']],v[l]==flen(p))))
        if 'eof' in f and 'fail' in f: out.append(('input errors are remembered',lambda v,m,f=f: Implies(And(v[f['fail']],Not(v[f['eof']])),v[('g','_inerr')]) if ('g','_inerr') in v else TRUE))
    for i,(l,f,p) in enumerate(S):
        for l2,f2,p2 in S[i+1:]:
            out.append(('both files are read in step',lambda v,m,l=l,l2=l2: v[l]==v[l2]))
            out.append(('bytes read so far agree',lambda v,m,l=l,p=p,p2=p2: eqbytes(p,p2,v[l])))
            if 'eof' in f and 'eof' in f2: out.append(('both files end together',lambda v,m,f=f,f2=f2: v[f['eof']]==v[f2['eof']]))
    return out
add(Con('checkFilesEqual(cref(str),cref(str))',pre=lambda c:[('sizes',And(flen(c.a(0).t)>=0,flen(c.a(1).t)>=0,Not(c.go('_inerr'))))],post=post,mods=(),throws=False,opts={'hints':hint}),'C26')
def perm(c):
    a,b=c.a(0).t,c.a(1).t; E=c.go('fs_ex')
    return [('exactly when mode, owner and group agree',c.ret.t==And(terms.sel(E,a),terms.sel(E,b),MODE(a)==MODE(b),ST('uid')(a)==ST('uid')(b),ST('gid')(a)==ST('gid')(b)))]
add(Con('checkPermissionsEqual(cref(str),cref(str))',post=perm,mods=(),throws=False),'C26')
# ---------------------------------------------------------------- C25
up=z3.Function('updir',Str,Str,B)          # up(f,p): p is f or one of its parent directories
def upax():
    f,p=qs('f','p'); d=lib.sdirname(f)
    solve.EXTRA_AX.append((('updir',),[z3.ForAll([f],up(f,f),patterns=[up(f,f)]),z3.ForAll([f,p],Implies(up(d,p),up(f,p)),patterns=[up(d,p)])]))
upax()
strip=z3.Function('unslashed',Str,Str)     # a path without the slashes at its end ("/" alone stays)
def stripax():
    b,=qs('b'); n=z3.Int('n!q'); t=lib.ssub(b,z3.IntVal(0),n); sl=z3.And(slen(b)>1,strat(b,slen(b)-1)==47)
    solve.EXTRA_AX.append((('unslashed',),[z3.ForAll([b,n],Implies(And(sl,n==slen(b)-1),strip(b)==strip(t)),patterns=[z3.MultiPattern(strip(b),t)]),z3.ForAll([b],Implies(Not(sl),strip(b)==b),patterns=[strip(b)])]))
stripax()
def isbase(b,p): return strip(p)==strip(b)
def striphint(ex,st,h,mods):
    """a text shortened by the loop still is the same path"""
    out=[]
    for l in mods:
        x=get(h,l)
        if isinstance(x,T) and x.t.sort()==Str and l[0]=='l' and not l[2]:
            for w,b in ex.c25: out.append((w+' without slashes',lambda v,m,l=l,b=b: strip(v[l])==strip(b)))
    return out
def setup25(ex,st,this,args): ex.c25=[('the base',args[0].t if isinstance(args[0],T) else ex.read(st,args[0]).t),('the file',args[1].t if isinstance(args[1],T) else ex.read(st,args[1]).t)]
def post25(c):
    p,q=qs('p','q'); b,f=c.a(0).t,c.a(1).t; r0,r1,e0,e1=c.go('removed'),c.gn('removed'),c.go('fs_ex'),c.gn('fs_ex'); S=z3.Select; d=lib.sdirname
    gone=lambda x: z3.And(S(e0,x),Not(S(e1,x))); new=lambda x: z3.And(S(r1,x),Not(S(r0,x)))
    return [('only the file and its parents below the base are asked for',fa([p],Implies(new(p),And(up(f,p),Not(isbase(b,p)))),S(r1,p))),
      ('what was asked for before still was',fa([p],Implies(S(r0,p),S(r1,p)),S(r1,p))),
      ('the file is asked for unless it is the base',Implies(Not(isbase(b,f)),S(r1,f))),
      ('nothing is asked for when the file is the base',Implies(isbase(b,f),And(r1==r0,e1==e0))),
      ('a parent is asked for only after something directly in it was deleted',fa([p],Implies(And(new(p),p!=f),z3.Exists([q],And(up(f,q),d(q)==p,gone(q)))),S(r1,p))),
      ('nothing comes into being',fa([p],Implies(S(e1,p),S(e0,p)),S(e1,p))),
      ('only what was asked for disappears',fa([p],Implies(gone(p),S(r1,p)),S(e1,p))),
      ('the parent of what was deleted is asked for',fa([q],Implies(And(gone(q),Not(isbase(b,d(q)))),S(r1,d(q))),S(e1,q)))]
add(Con('removeFile(cref(str),cref(str))',post=post25,mods=('g:removed','g:fs_ex'),throws=False,setup=setup25,opts={'hints':striphint}),'C25')
# ---------------------------------------------------------------- C27
inside=z3.Function('inside',Str,Str,B)     # inside(d,p): p is an entry found in directory d or, without following links, below it
def insax():
    d,n,p=qs('d','n','p'); sl=lit('/'); e=scat(d,scat(sl,n)); nm=z3.And(lib.isname(n),n!=lit('.'),n!=lit('..'))
    solve.EXTRA_AX.append((('inside','isname'),[z3.ForAll([d,n],Implies(nm,inside(d,e)),patterns=[inside(d,e)]),
        z3.ForAll([d,n,p],Implies(And(nm,fmt(e)==4,inside(e,p)),inside(d,p)),patterns=[inside(e,p)])]))
insax()
def post27(c):
    p,=qs('p'); o,n=c.a(0).t,c.an(0).t
    return [('nothing listed before is dropped',fa([p],Implies(z3.Select(o,p),z3.Select(n,p)),z3.Select(n,p))),
            ('only entries inside the directory are added',fa([p],Implies(z3.Select(n,p),z3.Or(z3.Select(o,p),inside(c.a(1).t,p))),z3.Select(n,p)))]
def hint27(ex,st,h,mods):
    """the path buffer keeps naming the directory; only entries inside it have been added"""
    out=[]; f,p=qs('f','p'); P=cat(ex.c27,lit('/'))
    for l in mods:
        x=get(h,l)
        if isinstance(x,T) and x.t.sort()==Str and not l[2]: out.append(('the path buffer starts with the directory',lambda v,m,l=l: And(slen(v[l])>=slen(ex.c27)+1,lib.ssub(v[l],z3.IntVal(0),slen(ex.c27)+1)==P)))
        if isinstance(x,T) and x.t.sort()==z3.ArraySort(Str,B) and l[0]!='g':
            o=ex.c27s
            out.append(('only entries inside the directory are added',lambda v,m,l=l: fa([p],Implies(z3.Select(v[l],p),z3.Or(z3.Select(o,p),inside(ex.c27,p))),z3.Select(v[l],p))))
            out.append(('nothing is dropped',lambda v,m,l=l: fa([p],Implies(z3.Select(o,p),z3.Select(v[l],p)),z3.Select(v[l],p))))
    return out
def setup27(ex,st,this,args): ex.c27=args[1].t; ex.c27s=ex.read(st,args[0]).t; st.assume(slen(ex.c27)<2**31)
def pre27(c):
    s=c.a(2).t; return [('links are not followed',(s/2)%2==0),('directories are not listed themselves',(s/8)%2==0)]
add(Con('findRecursiveFile(ref(std::set(str)),ptr(char),i32)',pre=pre27,post=post27,mods=('arg0',),throws=False,setup=setup27,opts={'hints':hint27}),'C27')
DU='std::vector(rec:cards::DirUrl)'
def col(v,k): u=unpack(z3.Select(varr(v,DU),k),'rec:cards::DirUrl'); return {n.split('::')[-1]:x.t for n,x in u.f.items()}
def mine(v,n,p):
    k=z3.Int('k!col'); c=col(v,k); return z3.Exists([k],And(0<=k,k<n,slen(c['url'])!=0,inside(cat(c['depot'],cat(lit('/'),c['collection'])),p)))
def hook27(ex,st,k,p,p2):
    if k in('open_w','creat','fopen_w','rename','link','mkdir'): ex.oblige(st,FALSE,'nothing is created','effect')
    if k in('remove','unlink','rmdir'): ex.oblige(st,mine(ex.c27v,vlen(ex.c27v,DU),p),'only files inside the directory of a collection with a URL are deleted','effect')
def setup27b(ex,st,this,args): ex.c27v=ex.read(st,this.f('cards::conf::m_dirUrl',DU)).t
def hint27b(ex,st,h,mods):
    out=[]; p,=qs('p'); v0=ex.c27v
    for l in mods:
        x=get(h,l)
        if isinstance(x,T) and x.t.sort()==z3.ArraySort(Str,B) and l[0]!='g':
            out.append(('listed files lie inside a collection with a URL',lambda v,m,l=l: fa([p],Implies(z3.Select(v[l],p),mine(v0,vlen(v0,DU),p)),z3.Select(v[l],p))))
    return out
def post27b(c):
    p,=qs('p'); v=c.o('m_dirUrl').t
    return [('only files inside the directory of a collection with a URL are deleted',fa([p],Implies(z3.Select(c.gn('removed'),p),z3.Or(z3.Select(c.go('removed'),p),mine(v,vlen(v,DU),p))),z3.Select(c.gn('removed'),p)))]
add(Con('cards::conf::purge()',pre=lambda c:[('a list has a length',vlen(c.o('m_dirUrl').t,DU)>=0)],post=post27b,mods=('g:removed','g:fs_ex'),throws=False,setup=setup27b,opts={'hints':hint27b,'effect':hook27}),'C27')
