"""C14: the packages a manually installed package needs."""
from contracts.base import *
from contracts.common import RT
from contracts.records import PK, ent, fld, dbty, rdir
from contracts.lists import flines, line, VS
from loops import get
import loops
SS='std::set(str)'; PT='std::pair(str,std::set(str))'; WD='m_listOfPackagesWithDeps'; AL='m_listOfAlias'; LD='m_listofDependencies'; MI='m_listOfManInstalledPackages'
reach=z3.Function('reaches',Str,Str,B)   # any reflexive relation that contains the recorded dependencies and is transitive along them (the least one is reachability)
def real(c,d,o=True):
    pk=c.o(PK); al=c.o(AL)
    return z3.If(z3.Select(mdom(pk.t,pk.ty),d),d,z3.If(z3.Select(mdom(al.t,al.ty),d),z3.Select(mval(al.t,al.ty),d),d))
def isdep(c,x,d): D=z3.Const('D!nd',sort(SS)); return z3.Exists([D],And(z3.Select(c.o(WD).t,mkpair(x,D,PT)),z3.Select(D,d)))
def edges(c):
    x,d,z=qs('x','d','z'); D=z3.Const('D!nd',sort(SS)); p=mkpair(x,D,PT)
    return z3.ForAll([x,D,d],Implies(And(z3.Select(c.o(WD).t,p),z3.Select(D,d)),reach(x,real(c,d))),patterns=[z3.MultiPattern(z3.Select(c.o(WD).t,p),z3.Select(D,d))])
_x,_y,_w=qs('x','y','w')
solve.EXTRA_AX.append((('reaches',),[z3.ForAll([_x],reach(_x,_x),patterns=[reach(_x,_x)]),z3.ForAll([_x,_y,_w],Implies(And(reach(_x,_y),reach(_y,_w)),reach(_x,_w)),patterns=[z3.MultiPattern(reach(_x,_y),reach(_y,_w))])]))
def unique(c):
    x,=qs('x'); D,E=z3.Consts('D!nd E!nd',sort(SS)); w=c.o(WD).t; p,q=mkpair(x,D,PT),mkpair(x,E,PT)
    return [('one entry per package',z3.ForAll([x,D,E],Implies(And(z3.Select(w,p),z3.Select(w,q)),D==E),patterns=[z3.MultiPattern(z3.Select(w,p),z3.Select(w,q))]))]
def assume_edges(c): return [('dependencies are followed',edges(c))]
def closed_over(c,S,new):
    x,d=qs('x','d'); D=z3.Const('D!nd',sort(SS)); w=c.o(WD).t; p=mkpair(x,D,PT)
    return z3.ForAll([x,D,d],Implies(And(new(x),z3.Select(w,p),z3.Select(D,d)),z3.Select(S,real(c,d))),patterns=[z3.MultiPattern(z3.Select(w,p),z3.Select(D,d))])
def gd_post(c):
    x,=qs('x'); S0,S1=c.o(LD).t,c.n(LD).t; n=real(c,c.a(0).t)
    return [('the package is needed',z3.Select(S1,n)),('nothing needed is forgotten',fa([x],Implies(z3.Select(S0,x),z3.Select(S1,x)),z3.Select(S0,x),z3.Select(S1,x))),
      ('only what it needs is added',fa([x],Implies(And(z3.Select(S1,x),Not(z3.Select(S0,x))),reach(n,x)),z3.Select(S1,x))),
      ('whatever an added package depends on is needed too',closed_over(c,S1,lambda x: And(z3.Select(S1,x),Not(z3.Select(S0,x))))),('the name is resolved',c.an(0).t==n)]
def is_ld(l): return l[0]=='l' and l[2] and str(l[2][-1][1]).endswith('::m_listofDependencies')
def gd_setup(ex,st,this,args): ex.gd=(this,args)
class H:
    """view of a state inside the body: fields from the entry state"""
    def __init__(s,ex,st): s.ex=ex; s.st=st
    def o(s,n):
        o=s.ex.read(s.st,s.ex.fnstack[0]['this']); o=o if isinstance(o,Obj) else unpack(o.t,o.ty); v=[v for k,v in o.f.items() if k.split('::')[-1]==n][0]; return v
def gd_hint(ex,st,h,mods):
    out=[]; c=H(ex,st); x,d=qs('x','d'); lds=[l for l in mods if is_ld(l)]; D=z3.Const('D!nd',sort(SS))
    nm=ex.read(st,ex.gd[1][0]).t
    for k in mods:
        it=get(h,k)
        if not isinstance(it,It) or it.kind!='key': continue
        if it.cty.startswith('std::set(std::pair(str'):
            p=mkpair(x,D,PT)
            out.append(('no entry of the package among those passed',lambda v,m,k=k: z3.ForAll([x,D],Implies(z3.Select(v[k],p),x!=nm),patterns=[z3.Select(v[k],p)])))
        for l in lds:
            L0=get(st,l).t
            out.append(('nothing needed is forgotten',lambda v,m,l=l,L0=L0: fa([x],Implies(z3.Select(L0,x),z3.Select(v[l],x)),z3.Select(L0,x),z3.Select(v[l],x))))
            if it.cty==SS:
                out.append(('only what it needs is added',lambda v,m,l=l,L0=L0: fa([x],Implies(And(z3.Select(v[l],x),Not(z3.Select(L0,x))),reach(nm,x)),z3.Select(v[l],x))))
                out.append(('added packages are complete',lambda v,m,l=l,L0=L0: closed_over(c,v[l],lambda x: And(z3.Select(v[l],x),Not(z3.Select(L0,x))))))
                out.append(('the dependencies passed are needed',lambda v,m,l=l,k=k: z3.ForAll([d],Implies(z3.Select(v[k],d),z3.Select(v[l],real(c,d))),patterns=[z3.Select(v[k],d)])))
    return out
def idem(c):
    d,=qs('d'); pk=c.o(PK); al=c.o(AL); w=z3.Select(mval(al.t,al.ty),d)
    return [('a name is resolved in one step',z3.ForAll([d],Implies(z3.Select(mdom(al.t,al.ty),d),real(c,w)==w),patterns=[z3.Select(mdom(al.t,al.ty),d)]))]
GD='pkgrm::getDirectDependencies(ref(str))'
add(Con(GD,pre=lambda c: unique(c)+idem(c)+assume_edges(c),post=gd_post,mods=(LD,'arg0'),throws=False,setup=gd_setup,opts={'hints':gd_hint}),'C14')
NM='m_listOfPackagesNames'
def metaf(root,m): return cat(rdir(root,m),lit('/META'))
def depname(l): n=slen(l); return lib.ssub_(l,z3.IntVal(1),z3.If(n<11,z3.IntVal(2**64-11)+n,n-11))
def metal(c,x): return terms.sel(c.go('fs_lines'),metaf(c.o('m_root').t,x))
def recorded(L,d): k=z3.Int('k!rd'); return z3.Exists([k],And(0<=k,k<vlen(L,VS),strat(line(L,k),z3.IntVal(0))==ord('R'),d==depname(line(L,k))))
def wd_is(L,D,ok):
    d,=qs('d'); return And(z3.ForAll([d],Implies(z3.Select(D,d),recorded(L,d)),patterns=[z3.Select(D,d)]),Implies(ok,z3.ForAll([d],Implies(recorded(L,d),z3.Select(D,d)))))
def bs_setup(ex,st,this,args): ex.bs=ex.read(st,this.f('pkgdbh::m_root','str')).t
def bs_hint(ex,st,h,mods):
    out=[]; G=('g','_inerr'); x,d=qs('x','d'); D=z3.Const('D!nd',sort(SS)); p=mkpair(x,D,PT); FL=ex.g(st,'fs_lines',lib.gsort('fs_lines')); e0=ex.g(st,'_inerr',B)
    for k in mods:
        it=get(h,k)
        if not isinstance(it,It) or it.kind!='key': continue
        for l in mods:
            y=get(h,l)
            if isinstance(y,T) and y.ty and spec.strip_ref(y.ty)=='std::set(%s)'%PT:
                L=lambda x: terms.sel(FL,metaf(ex.bs,x))
                out.append(('one entry for each package passed',lambda v,m,l=l,k=k: z3.ForAll([x,D],Implies(z3.Select(v[l],p),And(z3.Select(v[k],x),wd_is(L(x),D,Not(v[G] if G in v else e0)))),patterns=[z3.Select(v[l],p)])))
                out.append(('each package passed has an entry',lambda v,m,l=l,k=k: fa([x],Implies(z3.Select(v[k],x),z3.Exists([D],z3.Select(v[l],p))),z3.Select(v[k],x))))
                out.append(('one entry per package',lambda v,m,l=l: z3.ForAll([x,D,z3.Const('E!nd',sort(SS))],Implies(And(z3.Select(v[l],p),z3.Select(v[l],mkpair(x,z3.Const('E!nd',sort(SS)),PT))),D==z3.Const('E!nd',sort(SS))),patterns=[z3.MultiPattern(z3.Select(v[l],p),z3.Select(v[l],mkpair(x,z3.Const('E!nd',sort(SS)),PT)))])))
            elif isinstance(y,T) and y.ty and spec.strip_ref(y.ty) in(SS,PT):
                pr=(lambda t: t) if spec.strip_ref(y.ty)==SS else (lambda t: psnd(t,PT)); nmk=(lambda t: TRUE) if spec.strip_ref(y.ty)==SS else (lambda t,y0=get(st,l): pfst(t,PT)==pfst(y0.t,PT))
                out.append(('the dependencies of the lines passed',lambda v,m,l=l,k=k,pr=pr,nmk=nmk: And(nmk(v[l]),z3.ForAll([d],z3.Select(pr(v[l]),d)==z3.Exists([x],And(z3.Select(v[k],x),strat(x,z3.IntVal(0))==ord('R'),d==depname(x)))))))
    return out
def bs_post(c):
    x,=qs('x'); D=z3.Const('D!nd',sort(SS)); p=mkpair(x,D,PT); w=c.n(WD).t; N=c.n(NM).t
    return [('an entry says what the metadata of its package says',z3.ForAll([x,D],Implies(z3.Select(w,p),And(z3.Select(N,x),wd_is(metal(c,x),D,Not(c.gn('_inerr'))))),patterns=[z3.Select(w,p)])),
      ('every package has an entry',fa([x],Implies(z3.Select(N,x),z3.Exists([D],z3.Select(w,p))),z3.Select(N,x)))]+[(n,f) for n,f in unique(type('V',(),{'o':staticmethod(c.n)})())]+[('the packages known stay',fa([x],Implies(z3.Select(c.o(NM).t,x),z3.Select(N,x)),z3.Select(N,x)))]
add(Con('pkgdbh::buildSimpleDependenciesDatabase()',pre=lambda c:[('not built before',Eq(c.o(WD).t,emptyset(sort(PT))))],post=bs_post,mods=(WD,NM,'m_actualError','g:_inerr'),throws=RT,setup=bs_setup,opts={'hints':bs_hint}),'C14')
def medges(c):
    x,d=qs('x','d'); L=metal(c,x)
    return [('dependencies are followed',z3.ForAll([x,d],Implies(recorded(L,d),reach(x,real(c,d))),patterns=[z3.MultiPattern(terms.sel(c.go('fs_lines'),metaf(c.o('m_root').t,x)),reach(x,real(c,d)))]) if False else z3.ForAll([x,d],Implies(recorded(L,d),reach(x,real(c,d)))))]
def man_setup(ex,st,this,args): bs_setup(ex,st,this,args)
def isman(c,x): pk=c.o(PK); return And(z3.Select(mdom(pk.t,pk.ty),x),Not(fld(ent(pk,x),dbty(pk),'m_dependency')))
def man_hint(ex,st,h,mods):
    out=[]; c=H(ex,st); x,m_=qs('x','m'); mi=c.o(MI).t
    for k in mods:
        it=get(h,k)
        if not isinstance(it,It) or it.kind!='key': continue
        for l in mods:
            if l[0]=='l' and l[2] and str(l[2][-1][1]).endswith(MI): out.append(('the manual packages passed',lambda v,m,l=l,k=k,y0=get(st,l).t: z3.ForAll([x],z3.Select(v[l],x)==z3.Or(z3.Select(y0,x),And(z3.Select(v[k],x),isman(c,x))))))
            if is_ld(l):
                out.append(('the manual packages passed are needed',lambda v,m,l=l,k=k: fa([x],Implies(z3.Select(v[k],x),z3.Select(v[l],x)),z3.Select(v[k],x))))
                out.append(('what is needed is needed by a manual package',lambda v,m,l=l: fa([x],Implies(z3.Select(v[l],x),z3.Exists([m_],And(z3.Select(mi,m_),reach(m_,x)))),z3.Select(v[l],x))))
                out.append(('whatever is needed is complete',lambda v,m,l=l: closed_over(c,v[l],lambda x: z3.Select(v[l],x))))
    return out
def man_pre(c):
    return [('not computed before',And(Eq(c.o(WD).t,emptyset(sort(PT))),Eq(c.o(LD).t,emptyset(Str)),Eq(c.o(MI).t,emptyset(Str))))]+idem(c)+medges(c)
def man_post(c):
    x,d,m_=qs('x','d','m'); S=c.n(LD).t; M=c.n(MI).t; N=c.n(NM).t
    return [('the manual packages are those not marked',fa([x],z3.Select(M,x)==isman(c,x),z3.Select(M,x))),('every manual package is needed',fa([x],Implies(isman(c,x),z3.Select(S,x)),z3.Select(M,x))),
      ('nothing but what a manual package needs',fa([x],Implies(z3.Select(S,x),z3.Exists([m_],And(isman(c,m_),reach(m_,x)))),z3.Select(S,x))),
      ('whatever a needed package depends on is needed',Implies(Not(c.gn('_inerr')),z3.ForAll([x,d],Implies(And(z3.Select(S,x),z3.Select(N,x),recorded(metal(c,x),d)),z3.Select(S,real(c,d))))))]
add(Con('pkgrm::getListOfManInstalledPackages()',pre=man_pre,post=man_post,mods=(WD,NM,LD,MI,'m_actualError','g:_inerr'),throws=RT,setup=man_setup,opts={'hints':man_hint}),'C14')
