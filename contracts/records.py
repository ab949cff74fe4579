"""C07, C08: the per-package file records."""
from contracts.base import *
from contracts.common import RT
import loops
from loops import get
DB='var/lib/pkg/DB/'; TMP='.imcomplete_transaction'
VS=lib.VS
def ss(S): return lib.seqfns()[0](S)
def rdir(root,m): return cat(root,cat(lit(DB),m))
def rec(root,m): return cat(rdir(root,m),lit('/files'))
def tmp(root,m): return cat(rec(root,m),lit(TMP))
def tbl_store(tb,m,info): return mkmap(z3.Store(mdom(tb.t,tb.ty),m,TRUE),z3.Store(mval(tb.t,tb.ty),m,info),tb.ty)
def dbterm(v): return v.t if isinstance(v,T) else pack(v)
def new_lines(L,root,m,S): return z3.Store(z3.Store(L,tmp(root,m),ss(S)),rec(root,m),ss(S))
def arg_files(c): return c.of(c.a(1),'files').t
def hook(ex,st,k,p,p2):
    """at every call that changes the filesystem (= every possible crash point) the record is the old one"""
    fr=ex.fnstack[0]; this=fr.get('this')
    if not hasattr(ex,'rec_info'): return
    root,name,S=ex.rec_info
    r=rec(root,name); L0=ghost0('fs_lines',lib.gsort('fs_lines')); L=ex.g(st,'fs_lines',lib.gsort('fs_lines')); E0=ghost0('fs_ex',lib.gsort('fs_ex')); E=ex.g(st,'fs_ex',lib.gsort('fs_ex'))
    if k=='close': return
    ex.oblige(st,And(Eq(terms.sel(L,r),terms.sel(L0,r)),terms.sel(E,r)==terms.sel(E0,r)),'the record is still the old one when %s is called'%k,'effect')
    if k=='rename':
        sy=ex.g(st,'fs_synced',lib.gsort('fs_synced'))
        ex.oblige(st,z3.Implies(p2==r,And(Eq(terms.sel(L,p),ss(S)),terms.sel(sy,p),p!=r)),'only the complete and synced new list is renamed over the record','effect')
        ex.oblige(st,p!=r,'the record itself is never moved away','effect')
    else: ex.oblige(st,p!=r,'the record itself is never the target of %s'%k,'effect')
def setup(ex,st,this,args):
    root=ex.read(st,this.f('pkgdbh::m_root','str')); nm=ex.read(st,args[0]); info=ex.read(st,args[1])
    o=info if isinstance(info,Obj) else unpack(info.t,info.ty)
    ex.rec_info=(root.t,nm.t,[v for k,v in o.f.items() if k.endswith('::files')][0].t)
def lines_hint(ex,st,h,mods):
    """a list written element by element"""
    out=[]
    for l in mods:
        x=get(h,l)
        if isinstance(x,T) and x.ty==VS and l[0]=='l' and l[2] and l[2][-1]==('s','lines'):
            for c in mods:
                y=get(h,c)
                if isinstance(y,It) and y.kind=='key' and y.cur.sort()==Str: out.append(('the lines written so far are the elements visited so far',lambda v,m,l=l,c=c: v[l]==ss(v[c])))
    return out
def post8(c):
    p,=qs('p'); root=c.o('m_root').t; nm=c.a(0).t
    return [('the record exists',terms.sel(c.gn('fs_ex'),rec(root,nm))),
            ('no other path appears or disappears',fa([p],z3.Implies(z3.And(p!=rdir(root,nm),p!=rec(root,nm),p!=tmp(root,nm)),z3.Select(c.gn('fs_ex'),p)==z3.Select(c.go('fs_ex'),p)),z3.Select(c.gn('fs_ex'),p))),
            ('only the temporary file and the record are written',z3.ForAll([p],z3.Implies(z3.Select(c.gn('wrote'),p),z3.Or(z3.Select(c.go('wrote'),p),p==rdir(root,nm),p==rec(root,nm),p==tmp(root,nm)))))]
def xpost8(c):
    root=c.o('m_root').t; r=rec(root,c.a(0).t)
    return [('the previous record is still in place',And(Eq(terms.sel(c.gn('fs_lines'),r),terms.sel(c.go('fs_lines'),r)),terms.sel(c.gn('fs_ex'),r)==terms.sel(c.go('fs_ex'),r)))]
add(Con('pkgdbh::addPackageFilesRefsToDB(cref(str),cref(rec:cards::db))',
    mods=('m_actualError','g:fs_ex','g:wrote','g:fs_synced','m_listOfPackages','g:fs_lines'),
    xmods=('m_actualError','g:fs_ex','g:wrote','g:fs_synced','m_listOfPackages','g:fs_lines','g:removed'),
    sets={'m_listOfPackages':lambda c: tbl_store(c.o('m_listOfPackages'),c.a(0).t,dbterm(c.a(1))),
          'g:fs_lines':lambda c: new_lines(c.go('fs_lines'),c.o('m_root').t,c.a(0).t,arg_files(c))},
    post=post8,xpost=xpost8,throws=RT,setup=setup,opts={'effect':hook,'hints':lines_hint}),'C08')

# ---------------------------------------------------------------- C07
from contracts.removal import files as recorded, order_hook
PK='m_listOfPackages'
def ent(tb,m): return Select(mval(tb.t,tb.ty),m)
def fld(e,ty,n): 
    u=unpack(e,ty); return [v for k,v in u.f.items() if k.endswith('::'+n)][0].t
def dbty(tb): return ptype(tb.ty)[1][1]
def same_but_files(a,b,ty):
    x,y=unpack(a,ty),unpack(b,ty); return And(*[Eq(x.f[k].t,y.f[k].t) for k in x.f if not k.endswith('::files')])
def is_tbl(x): return isinstance(x,T) and x.ty and kind(x.ty)=='map' and x.ty.endswith('rec:cards::db)')
_m,_n=qs('m','n')
_sep=[slen(lit('/files'))==6]
NOREC=z3.ForAll([_m,_n],scat(_m,lit('/files'))!=scat(_n,lit('/files'+TMP)),patterns=[z3.MultiPattern(scat(_m,lit('/files')),scat(_n,lit('/files'+TMP)))])
_x,_y=z3.Consts('x!lm y!lm',Str); _X=scat(_x,lit('/files')); _Y=scat(_y,lit('/files'+TMP))
lemma('a record is never a temporary file',[],Or(_X!=_Y,And(_X==_Y,sat_(_X,slen(_X)-1)!=sat_(_Y,slen(_Y)-1))),'C07')
solve.EXTRA_AX.append((('scat',lit('/files').decl().name(),lit('/files'+TMP).decl().name()),[NOREC]))
def facts_tbl(T0,Tn,L0,Ln,root,rm,vis,dn=None):
    """the packages of `vis` have lost the paths rm, in memory and in the record; nothing else changed"""
    m,f,p=qs('m','f','p'); ty=dbty(T0); d=mdom(T0.t,T0.ty)
    e0,e1=ent(T0,m),ent(Tn,m); f0,f1=fld(e0,ty,'files'),fld(e1,ty,'files')
    changed=z3.Exists([f],And(z3.Select(f0,f),z3.Select(rm,f)))
    if dn is None: dn=lambda m: z3.Select(d,m)
    return [('the packages listed stay the same',fa([m],z3.Select(mdom(Tn.t,Tn.ty),m)==dn(m),z3.Select(mdom(Tn.t,Tn.ty),m))),
      ('each list loses exactly the conflicting files',z3.ForAll([m,f],z3.Implies(z3.Select(d,m),z3.Select(f1,f)==And(z3.Select(f0,f),Not(And(vis(m),z3.Select(rm,f))))))),
      ('nothing else of an entry changes',fa([m],z3.Implies(z3.Select(d,m),same_but_files(e1,e0,ty)),e1)),
      ('each changed record on disk holds the new list',z3.ForAll([m],z3.Implies(And(z3.Select(d,m),vis(m),changed),terms.sel(Ln,rec(root,m))==ss(f1)))),
      ('each other record on disk is untouched',z3.ForAll([m],z3.Implies(Not(And(z3.Select(d,m),vis(m),changed)),terms.sel(Ln,rec(root,m))==terms.sel(L0,rec(root,m)))))]
def hint7(ex,st,h,mods):
    if not hasattr(ex,'c7'): return []
    c=ex.c7; out=[]; L=('g','fs_lines'); tbls=[l for l in mods if is_tbl(get(h,l))]
    if L not in mods or not tbls: return out
    root=c['root']; E=('g','fs_ex'); f_=z3.Const('f!e',Str)
    if E in mods: out.append(('no conflicting file appears or disappears',lambda v,mm,E0=get(st,E).t: fa([f_],Implies(z3.Select(c['rm'],f_),z3.Select(v[E],cat(root,f_))==z3.Select(E0,cat(root,f_))),z3.Select(c['rm'],f_))))
    for tl in tbls:
        T_=lambda v,tl=tl: T(v[tl],get(h,tl).ty)
        T0=get(st,tl); L0=get(st,L).t
        keyc=[l for l in mods if isinstance(get(h,l),It) and get(h,l).kind=='key']
        for k in keyc:
            it=get(h,k)
            if kind(it.cty)!='map': continue
            # outer loop over the packages
            n=len(facts_tbl(T0,T0,L0,L0,root,c['rm'],lambda m: FALSE))
            for i in range(n):
                out.append((facts_tbl(T0,T0,L0,L0,root,c['rm'],lambda m:FALSE)[i][0],lambda v,mm,i=i,k=k,T_=T_,T0=T0,L0=L0: facts_tbl(T0,T_(v),L0,v[L],root,c['rm'],lambda m: z3.Select(v[k],m))[i][1]))
        # inner loop over the conflicting files: a local copy of one package's entry
        for k in keyc:
            if kind(get(h,k).cty)!='set': continue
            for lf in mods:
                x=get(h,lf); x0=get(st,lf)
                if not (isinstance(x,T) and isinstance(x0,T) and lf[0]=='l'): continue
                ty=dbty(T0)
                if x.ty and kind(x.ty)=='pair' and x.ty.endswith('rec:cards::db)'):
                    out.append(('the name stays',lambda v,mm,lf=lf,x0=x0,x=x: pfst(v[lf],x.ty)==pfst(x0.t,x.ty)))
                    ent_=lambda t,x=x: psnd(t,x.ty)
                    names=[pfst(x0.t,x.ty)]
                elif x.ty=='rec:cards::db':
                    ent_=lambda t: t; names=[y.t for r2,w in st.store.items() for p2,y in loops.leaves(w) if isinstance(y,T) and y.ty=='str' and ('l',r2,p2) not in mods][:30]
                else: continue
                out.append(('nothing else of the copy changes',lambda v,mm,lf=lf,x0=x0,e=ent_: same_but_files(e(v[lf]),e(x0.t),ty)))
                f=z3.Const('f!h',Str)
                out.append(('the copy loses the files visited',lambda v,mm,lf=lf,x0=x0,e=ent_,k=k: z3.ForAll([f],z3.Select(fld(e(v[lf]),ty,'files'),f)==And(z3.Select(fld(e(x0.t),ty,'files'),f),Not(z3.Select(v[k],f))))))
                for nm in names:
                    def F(i,v,mm,lf=lf,x0=x0,e=ent_,nm=nm,T_=T_,T0=T0,L0=L0):
                        n=fld(e(v[lf]),ty,'files'); o=fld(e(x0.t),ty,'files'); g,m,p=qs('g','m','p'); t=T_(v).t; d,w=mdom(t,T0.ty),mval(t,T0.ty)
                        chg=z3.Exists([g],And(z3.Select(o,g),Not(z3.Select(n,g))))
                        return [fa([m],z3.Select(d,m)==Or(z3.Select(mdom(T0.t,T0.ty),m),And(chg,m==nm)),z3.Select(d,m)),
                          fa([m],Implies(m!=nm,Select(w,m)==ent(T0,m)),Select(w,m)),
                          Implies(Not(chg),Select(w,nm)==ent(T0,nm)),Implies(chg,fld(Select(w,nm),ty,'files')==n),Implies(chg,same_but_files(Select(w,nm),e(v[lf]),ty)),
                          fa([p],Implies(And(p!=rec(root,nm),p!=tmp(root,nm)),z3.Select(v[L],p)==z3.Select(L0,p)),z3.Select(v[L],p)),
                          Implies(chg,z3.Select(v[L],rec(root,nm))==ss(fld(Select(w,nm),ty,'files'))),Implies(Not(chg),z3.Select(v[L],rec(root,nm))==z3.Select(L0,rec(root,nm)))][i]
                    for i in range(8): out.append(('entry and record follow the local copy (%d)'%i,lambda v,mm,i=i,F=F: F(i,v,mm)))
    return out
def setup7(ex,st,this,args):
    root=ex.read(st,this.f('pkgdbh::m_root','str')).t
    ex.c7={'root':root,'rm':ex.load(st,args[0]).t}
def gone(c,f): return z3.Select(c.a(0).t,f)
def post7(c):
    p,f,m=qs('p','f','m'); T0,T1=c.o(PK),c.n(PK); root=c.o('m_root').t
    nm=c.o('m_packageName').t; al=c.o('m_listOfAlias'); t=facts_tbl(T0,T1,c.go('fs_lines'),c.gn('fs_lines'),root,c.a(0).t,lambda m: TRUE,lambda m: z3.Or(z3.Select(mdom(T0.t,T0.ty),m),And(m==nm,z3.Select(mdom(al.t,al.ty),nm))))
    want=z3.Exists([f],And(gone(c,f),Not(z3.Select(c.a(1).t,f)),p==cat(root,f),z3.Select(c.go('fs_ex'),p)))
    r0,r1=c.go('removed'),c.gn('removed')
    return t+[('only conflicting files that are not kept are deleted',z3.ForAll([p],z3.Implies(z3.Select(r1,p),z3.Or(z3.Select(r0,p),want)))),
        ('every such file that exists is deleted',z3.ForAll([p],z3.Implies(z3.Or(z3.Select(r0,p),want),z3.Select(r1,p))))]
dbpath=z3.Function('dbpath',Str,Str,B)   # dbpath(root,p): p lies in the package database directory
_r,_z=qs('r','z'); solve.EXTRA_AX.append((('dbpath',),[z3.ForAll([_r,_z],dbpath(_r,scat(_r,scat(lit(DB),_z))),patterns=[scat(_r,scat(lit(DB),_z))])]))
def pre7(c):
    f,=qs('f'); root=c.o('m_root').t
    return [('no conflicting file lies in the package database',fa([f],z3.Implies(gone(c,f),Not(dbpath(root,cat(root,f)))),gone(c,f)))]
add(Con('pkgdbh::removePackageFilesRefsFromDB(std::set(str),cref(std::set(str)))',pre=pre7,post=post7,throws=RT,
    mods=('m_actualError','m_packageVersion','m_packageRelease','m_packageCollection',PK,'g:fs_lines','g:fs_ex','g:wrote','g:fs_synced','g:removed'),setup=setup7,opts={'effect':order_hook,'hints':hint7,'hint_ms':6000,'noauto':lambda mods: ('m_listOfPackages','fs_lines','fs_synced','fs_ex','wrote','actualError','@P') if ('g','fs_lines') in mods else ()}),'C07')
