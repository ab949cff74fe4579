"""C17: an upgrade removes only obsolete automatic packages and updates only stale ones."""
from contracts.base import *
from contracts.common import RT
from contracts.records import PK, ent, fld, dbty
from contracts.lists import line, VS
from contracts.report import REPO, rdom, R, I_, MT, MR, MP, DB, CA, FX, g, sorts, INDEX, kept
import contracts.report as report
from loops import get
import loops
P='C17'
PT='std::pair(str,i64)'; SP='std::set(%s)'%PT; SS='std::set(str)'
TD,TU='m_ListOfPackagesToDelete','m_ListOfPackagesToUpdate'
RATIO=z3.Int('RATIO!')
OPTS=('CHECK','SIZE','PROCEED','DOWNLOAD_READY','DOWNLOAD_ONLY','ROOT','NO_PROGRESS')
def light(sig,**k): return over(P,Con(sig,throws=k.pop('throws',RT),**k))
for s_,c_ in list(OVER['C16'].items()):
    if not s_.startswith('cards::diff::'): over(P,c_)
def inst_of(ex,st): return g(ex,st,'dp_inst')
def indom(inst,x): return z3.Select(mdom(inst,MT),x)
def stale(inst,n): b=R(n,'m_build'); return Not(And(b!=0,indom(inst,n),I_(inst,n,'m_build')>=b))
def dele(inst,n): return And(indom(inst,n),Not(rdom(n)),I_(inst,n,'m_dependency'))
def upd(inst,n): return And(rdom(n),stale(inst,n))
def sub(x,gr): return cat(cat(x,lit('.')),gr)
def offer(inst,x,gr): return And(indom(inst,x),I_(inst,x,'m_group')==lit(''),upd(inst,sub(x,gr)))
def pr(n): return mkpair(n,R(n,'m_build'),PT)
def leaf(st,*suf):
    for r,v in st.store.items():
        for p,x in loops.leaves(v):
            if len(p)>=len(suf) and all(str(a[1]).endswith(b) for a,b in zip(p[-len(suf):],suf)): return x.t
def groups(st): return leaf(st,'upgrade::m_config','conf::m_groups')
def entry(ex,st,this,args):
    sorts(); g(ex,st,'dp_inst'); a=ex.read(st,args[0]); ex.upo=a if isinstance(a,Obj) else unpack(a.t,a.ty); ex.upf={}
    for o in OPTS: k=('v','g:CardsArgumentParser::OPT_'+o); ex.upf[o]=k; st.store[k]=fresh_val('OPT_'+o,'rec:ArgParser::APOpt')
    st.ghost['up_called']=FALSE
    ex.up_root=[v for k,v in ex.upo.f.items() if k.endswith('::m_setOptions')][0]
def isset(ex,st,o):
    v=st.store[ex.upf[o]]; u=v if isinstance(v,Obj) else unpack(v.t,v.ty); id_=[x for k,x in u.f.items() if k.split('::')[-1]=='id'][0]; so=ex.up_root
    return Select(mdom(so.t,so.ty),id_.t)
def upto(inst,G,p,U,q,x): return z3.ForAll([q,x],Implies(And(0<=q,q<p,offer(inst,x,line(G,q))),z3.Select(U,pr(sub(x,line(G,q))))),patterns=[z3.MultiPattern(z3.Select(varr(G,VS),q),z3.Select(mdom(inst,MT),x))])
def hint(ex,st,h,mods):
    out=[]; inst=inst_of(ex,st); n,x=qs('n','x'); b=z3.Int('b!up'); q=z3.Int('q!up'); G=groups(st)
    ks=[k for k in mods if isinstance(get(h,k),It) and get(h,k).kind=='key' and spec.strip_ref(get(h,k).cty)==MT]
    vs=[k for k in mods if isinstance(get(h,k),It) and get(h,k).kind=='idx' and spec.strip_ref(get(h,k).cty)==VS]
    outer=[get(h,('l',r,p)) for r,v in h.store.items() for p,y in loops.leaves(v) if isinstance(y,It) and y.kind=='idx' and spec.strip_ref(y.cty)==VS]
    for l in mods:
        y=get(h,l)
        if l[0]!='l' or not isinstance(y,T): continue
        f=str(l[2][-1][-1]).split('::')[-1] if l[2] else ''
        if f==MP: out.append(('the packages stay',lambda v,m,l=l: v[l]==inst if v[l].sort()==sort(MT) else v[l]==REPO()))
        y0=get(st,l).t if get(st,l) is not None else None
        if f==TD and ks: k=ks[0]; out.append(('to delete: those passed that are obsolete and automatic',lambda v,m,l=l,y0=y0: fa([n],z3.Select(v[l],n)==Or(z3.Select(y0,n),And(z3.Select(v[k],n),dele(inst,n))),z3.Select(v[l],n))))
        if f==TU and ks and not outer:
            k=ks[0]
            out.append(('to update: only those passed that are stale',lambda v,m,l=l,y0=y0: fa([n,b],Implies(z3.Select(v[l],mkpair(n,b,PT)),Or(z3.Select(y0,mkpair(n,b,PT)),And(z3.Select(v[k],n),upd(inst,n),b==R(n,'m_build')))),z3.Select(v[l],mkpair(n,b,PT)))))
            out.append(('to update: all those passed that are stale',lambda v,m,l=l,y0=y0: fa([n],Implies(And(z3.Select(v[k],n),upd(inst,n)),z3.Select(v[l],pr(n))),z3.Select(v[k],n))))
            out.append(('to update: what was there stays',lambda v,m,l=l,y0=y0: fa([n,b],Implies(z3.Select(y0,mkpair(n,b,PT)),z3.Select(v[l],mkpair(n,b,PT))),z3.Select(v[l],mkpair(n,b,PT)))))
        if f==TU and outer:
            e=(lambda w: z3.Exists([q,x],And(0<=q,q<w,offer(inst,x,line(G,q)),n==sub(x,line(G,q)))))
            cond=lambda S,t: fa([n,b],Implies(z3.Select(S,mkpair(n,b,PT)),And(upd(inst,n),b==R(n,'m_build'),t)),z3.Select(S,mkpair(n,b,PT)))
            if vs and not ks:
                k=vs[0]
                out.append(('to update: only groups passed of installed packages',lambda v,m,l=l: cond(v[l],e(v[k]))))
                out.append(('to update: all groups passed of installed packages',lambda v,m,l=l: upto(inst,G,v[k],v[l],q,x)))
            if ks:
                k=ks[0]; p=outer[0].pos; j=line(G,p)
                here=lambda V: z3.Exists([x],And(z3.Select(V,x),offer(inst,x,j),n==sub(x,j)))
                out.append(('to update: only this group of the packages passed',lambda v,m,l=l,y0=y0: fa([n,b],Implies(z3.Select(v[l],mkpair(n,b,PT)),Or(z3.Select(y0,mkpair(n,b,PT)),And(b==R(n,'m_build'),upd(inst,n),here(v[k])))),z3.Select(v[l],mkpair(n,b,PT)))))
                out.append(('to update: this group of all packages passed',lambda v,m,l=l: fa([x],Implies(And(z3.Select(v[k],x),offer(inst,x,j)),z3.Select(v[l],pr(sub(x,j)))),z3.Select(v[k],x))))
                out.append(('to update: what was there stays',lambda v,m,l=l,y0=y0: fa([n,b],Implies(z3.Select(y0,mkpair(n,b,PT)),z3.Select(v[l],mkpair(n,b,PT))),z3.Select(v[l],mkpair(n,b,PT)))))
    return out
def exact(inst,G,D,U):
    n,x=qs('n','x'); b=z3.Int('b!up'); q=z3.Int('q!up')
    return [('exactly the automatic packages in no repository are to be deleted',fa([n],z3.Select(D,n)==dele(inst,n),z3.Select(D,n))),
      ('only stale packages, and groups of installed main packages, are to be updated',fa([n,b],Implies(z3.Select(U,mkpair(n,b,PT)),And(upd(inst,n),b==R(n,'m_build'),Or(indom(inst,n),z3.Exists([q,x],And(0<=q,q<vlen(G,VS),offer(inst,x,line(G,q)),n==sub(x,line(G,q))))))),z3.Select(U,mkpair(n,b,PT)))),
      ('every stale package is to be updated',fa([n],Implies(And(indom(inst,n),upd(inst,n)),z3.Select(U,pr(n))),z3.Select(mdom(inst,MT),n))),
      ('every missing or stale group of an installed main package is to be updated',upto(inst,G,vlen(G,VS),U,q,x))]
def early(ex,st): return Or(isset(ex,st,'CHECK'),isset(ex,st,'SIZE'),And(RATIO>20,Not(isset(ex,st,'PROCEED'))))
def calls(ex,st,con,c):
    if con.sig.startswith('pkgdbh::buildDatabase('):
        v=st.store[ex.upf['ROOT']]; u=v if isinstance(v,Obj) else unpack(v.t,v.ty); id_=[x for k,x in u.f.items() if k.split('::')[-1]=='id'][0]; so=ex.up_root
        ex.oblige(st,Eq(c.o('m_root').t,z3.If(isset(ex,st,'ROOT'),cat(z3.Select(mval(so.t,so.ty),id_.t),lit('/')),lit('/'))),'the packages of the given root are read','effect')
    if not con.sig.startswith('cards::upgrade::upgradePackages('): return
    for n,f in exact(inst_of(ex,st),groups(st),c.o(TD).t,c.o(TU).t): ex.oblige(st,f,'before anything is changed: '+n,'effect')
    ex.oblige(st,Not(early(ex,st)),'nothing is changed when only asked, or when too much would change','effect')
    ex.oblige(st,Not(isset(ex,st,'DOWNLOAD_READY')),'nothing is changed when only the download is asked for','effect')
def effect(ex,st,k,p,p2): ex.oblige(st,FALSE,'nothing is changed before all is scheduled (%s)'%k,'effect')
def post(c):
    ex=c.ex; e=early(ex,c.sn); inst=c.gn('dp_inst'); D,U=c.n(TD).t,c.n(TU).t
    G=c.of(c.n('m_config'),'m_groups').t
    out=[(n,Implies(Not(e),f)) for n,f in exact(inst,G,D,U)]
    n=z3.Const('n!q',Str); b=z3.Int('b!up')
    some=Or(z3.Exists([n],z3.Select(D,n)),z3.Exists([n,b],z3.Select(U,mkpair(n,b,PT))))
    out.append(('what is scheduled is carried out',Implies(And(Not(e),some,Not(isset(ex,c.sn,'DOWNLOAD_READY'))),c.gn('up_called'))))
    return out
CT='cards::upgrade::upgrade(cref(rec:CardsArgumentParser),cref(str))'
light('cards::diff::diff(cref(rec:CardsArgumentParser),cref(str))',mods=('this',)+FX,trusted='the report (C16)')
light('cards::diff::ratio()',mods=(),post=lambda c:[('the share of packages that would change',c.ret.t==RATIO)],throws=False,trusted='a number')
light('cards::diff::size()',mods=(),throws=False,trusted='a number (C16)')
light('cards::diff::showInfo(bool)',mods=('this',),trusted='prints the report (C16)')
lib.GS['up_called']=B
lib.GS['up_rm']=sort(SS); lib.GS['up_gen']=B; lib.GS['up_db']=B
def late(): lib.GS['up_gen']=sort(SP)
LATE.append(late)
def up_entry(ex,st,this,args):
    sorts(); late(); st.ghost['up_rm']=emptyset(Str); st.ghost['up_gen']=emptyset(sort(PT)); o=ex.read(st,this); a=[v for k,v in o.f.items() if k.endswith('::m_argParser')][0]; a=ex.read(st,a) if isinstance(a,LV) else a; a=a if isinstance(a,Obj) else unpack(a.t,a.ty)
    ex.up_root=[v for k,v in a.f.items() if k.endswith('::m_setOptions')][0]; ex.upf={}
    for q in OPTS: k=('v','g:CardsArgumentParser::OPT_'+q); ex.upf[q]=k; st.store[k]=fresh_val('OPT_'+q,'rec:ArgParser::APOpt')
def up_hint(ex,st,h,mods):
    out=[]
    for k in mods:
        y=get(h,k)
        if not(isinstance(y,It) and y.kind=='key'): continue
        if spec.strip_ref(y.cty)==SS and ('g','up_rm') in mods: out.append(('removed: the scheduled ones passed',lambda v,m,k=k: v[('g','up_rm')]==v[k]))
        if spec.strip_ref(y.cty)==SP and ('g','up_gen') in mods: out.append(('selected: the scheduled ones passed',lambda v,m,k=k: v[('g','up_gen')]==v[k]))
    return out
def up_calls(ex,st,con,c):
    n=con.sig.split('(')[0]
    if n in('pkgdbh::removePackageFilesRefsFromDB','pkgdbh::removePackageFiles') and len(c.args)==1 and spec.ptype(con.sig.split('(')[1][:-1])[0]=='cref':
        o=ex.read(st,ex.fnstack[0]['this']); D=[v for k,v in o.f.items() if k.endswith('::'+TD)][0]
        ex.oblige(st,z3.Select(D.t,c.a(0).t),'only a package scheduled for deletion is removed','effect')
def up_post(c):
    only=isset(c.ex,c.sn,'DOWNLOAD_ONLY')
    return [('what was scheduled stays',And(Eq(c.o(TD).t,c.n(TD).t),Eq(c.o(TU).t,c.n(TU).t),Eq(c.of(c.o('m_config'),'m_groups').t,c.of(c.n('m_config'),'m_groups').t))),
      ('all that was scheduled for deletion is removed',Or(only,Eq(c.gn('up_rm'),c.o(TD).t))),('all that was scheduled for update is selected',Or(only,Eq(c.gn('up_gen'),c.o(TU).t)))]
light('cards::pkgrepo::parse()',mods=(MP,),post=lambda c:[('a loaded index stays',Implies(Eq(c.o(MP).t,REPO()),Eq(c.n(MP).t,REPO())))],trusted='loads the indexes (C19); they do not change while the command runs')
light('cards::pkgrepo::generateDependencies(cref(std::pair(str,i64)))',mods=('this',),ghost={'g:up_gen':lambda c: z3.Store(c.go('up_gen'),c.a(0).t,TRUE)},trusted='selects and downloads the package and what it needs (C18)')
light('pkgadd::run()',mods=('this',)+FX,trusted='installs a package (C10, C11)')
light('pkgdbh::removePackageFilesRefsFromDB(cref(str))',mods=('this',)+FX,ghost={'g:up_rm':lambda c: z3.Store(c.go('up_rm'),c.a(0).t,TRUE)},trusted='removes the record (C07)')
light('pkgdbh::removePackageFiles(cref(str))',mods=('this',)+FX,trusted='removes the files (C01)')
light('cards::conf::purge()',mods=()+FX,trusted='removes the downloaded archives')
light('cards::lock::lock(cref(str),bool)',mods=('this','g:locked'),trusted='takes the lock (C11)')
light('cards::lock::~lock()',mods=('this','g:locked'),throws=False,trusted='releases the lock (C11)')
UP='cards::upgrade::upgradePackages()'
light(UP,mods=('this','g:up_called')+FX,ghost={'g:up_called':lambda c: TRUE},post=lambda c: up_post(c)[:1],trusted='proved separately, with the same postcondition')
root(P,Con(UP,mods=('this','g:up_rm','g:up_gen','g:dp_inst')+FX,throws=RT,post=up_post,setup=up_entry,opts={'hints':up_hint,'noauto':('',),'calls':up_calls}))
root(P,light(CT,mods=('this','g:dp_inst','g:up_called')+FX,post=post,setup=entry,opts={'hints':hint,'noauto':('',),'hint_ms':4000,'calls':calls,'effect':effect,'optimistic':True}))
