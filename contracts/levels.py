"""C20: build levels of ports."""
from contracts.base import *
from contracts.common import RT
from contracts.records import fld
from loops import get
import loops
P='C20'; MP='m_listOfPackages'; PT='rec:cards::port'; MT='std::map(str,%s)'%PT; VU='std::vector(u32)'; VS=lib.VS; BD='m_badDependencies'; SS='std::set(str)'
AI=z3.ArraySort(I,I); AB=z3.ArraySort(I,B)
# by index number: the ports that have their level (lv_done) and that level (lv_lev); both follow the setters of cards::port
lib.GS['lv_done']=AB; lib.GS['lv_lev']=AI
cnt=z3.Function('cntdone',AI,I,AB,I)      # how many of the first n indexes are done
occ=z3.Function('occurs',AI,I,I,I)        # how often x is among the first n indexes
mentions=z3.Function('mentions',Str,Str,B)
one=lambda b: z3.If(b,z3.IntVal(1),z3.IntVal(0))
def cdef(A,n,D): return And(cnt(A,z3.IntVal(0),D)==0,Implies(n>=0,cnt(A,n+1,D)==cnt(A,n,D)+one(z3.Select(D,z3.Select(A,n)))))
def odef(A,n,x): return And(occ(A,z3.IntVal(0),x)==0,Implies(n>=0,occ(A,n+1,x)==occ(A,n,x)+one(z3.Select(A,n)==x)))
_A=z3.Const('A!lv',AI); _D=z3.Const('D!lv',AB); _n,_k,_x=z3.Ints('n!lv k!lv x!lv'); _0=z3.IntVal(0)
_S=z3.Store(_D,_x,TRUE)
L1=lambda n: Implies(And(n>=0,Not(z3.Select(_D,_x))),cnt(_A,n,_S)==cnt(_A,n,_D)+occ(_A,n,_x))
L2=lambda n: Implies(n>=0,And(0<=cnt(_A,n,_D),cnt(_A,n,_D)<=n))
L3=lambda n: Implies(And(n>=0,cnt(_A,n,_D)==n),z3.ForAll([_k],Implies(And(0<=_k,_k<n),z3.Select(_D,z3.Select(_A,_k)))))
L5=lambda n: Implies(And(n>=0,cnt(_A,n,_D)<n),z3.Exists([_k],And(0<=_k,_k<n,Not(z3.Select(_D,z3.Select(_A,_k))))))
L6=lambda n: Implies(And(n>=0,cnt(_A,n,_D)>0),z3.Exists([_k],And(0<=_k,_k<n,z3.Select(_D,z3.Select(_A,_k)))))
L4=lambda n: Implies(n>=0,And(0<=occ(_A,n,_x),occ(_A,n,_x)<=n))
for nm,L,defs in (('one more port done',L1,lambda n:[cdef(_A,n,_D),cdef(_A,n,_S),odef(_A,n,_x)]),('bounds of the count',L2,lambda n:[cdef(_A,n,_D)]),('a full count means all are done',L3,lambda n:[cdef(_A,n,_D),L2(n)]),('some are done if the count is positive',L6,lambda n:[cdef(_A,n,_D),L2(n)]),('less than a full count means one is not done',L5,lambda n:[cdef(_A,n,_D),L2(n)]),('bounds of the occurrences',L4,lambda n:[odef(_A,n,_x)])):
    lemma(nm+': none',defs(_0),L(_0),P); lemma(nm+': one more',[_n>=0]+defs(_n)+[L(_n)],L(_n+1),P)
solve.EXTRA_AX.append((('cntdone',),[z3.ForAll([_A,_D],cnt(_A,_0,_D)==0,patterns=[cnt(_A,_0,_D)]),
  z3.ForAll([_A,_n,_D],L2(_n),patterns=[cnt(_A,_n,_D)]),z3.ForAll([_A,_n,_D],And(L5(_n),L6(_n)),patterns=[cnt(_A,_n,_D)]),
  z3.ForAll([_A,_n,_D,_k],Implies(And(cnt(_A,_n,_D)==_n,0<=_k,_k<_n),z3.Select(_D,z3.Select(_A,_k))),patterns=[z3.MultiPattern(cnt(_A,_n,_D),z3.Select(_A,_k))])]))
solve.EXTRA_AX.append((('cntdone','occurs'),[z3.ForAll([_A,_n,_D,_x],L1(_n),patterns=[cnt(_A,_n,_S)])]))
solve.EXTRA_AX.append((('occurs',),[z3.ForAll([_A,_x],occ(_A,_0,_x)==0,patterns=[occ(_A,_0,_x)]),z3.ForAll([_A,_n,_x],L4(_n),patterns=[occ(_A,_n,_x)])]))
_a,_b,_s=z3.Consts('a!mt b!mt s!mt',Str)
solve.EXTRA_AX.append((('mentions',),[z3.ForAll([_s],mentions(_s,_s),patterns=[mentions(_s,_s)]),z3.ForAll([_a,_b,_s],Implies(Or(_a==_s,_b==_s,mentions(_a,_s),mentions(_b,_s)),mentions(core.scat(_a,_b),_s)),patterns=[mentions(core.scat(_a,_b),_s)])]))
# ---------------------------------------------------------------- a port
def e_(t,a): return z3.Select(mval(t,MT),a)
def in_(t,a): return z3.Select(mdom(t,MT),a)
def F(t,a,f): return fld(e_(t,a),PT,f)
def idx(t,a): return F(t,a,'m_index')
def V(t,a): return varr(F(t,a,'m_indexes'),VU)
def N(t,a): return vlen(F(t,a,'m_indexes'),VU)
def deps(t,a): return F(t,a,'m_dependencies')
def lev(t,a): return F(t,a,'m_level')
def dc(t,a): return F(t,a,'m_decount')
def dr(t,a): return F(t,a,'m_decrement')
base=z3.Function('portof',Str,Str)        # the port a dependency names: what comes before the last '.', if there is one
_d=z3.Const('d!po',Str); _p=core.srfindc(_d,z3.IntVal(ord('.'))); solve.EXTRA_AX.append((('portof',),[z3.ForAll([_d],base(_d)==z3.If(_p!=lib.NPOS,lib.ssub(_d,z3.IntVal(0),_p),_d),patterns=[base(_d)]+([_p] if core.pat_ok(_p) else []))]))
def same_fields(t0,t1,a,*fs): return And(*[F(t1,a,f)==F(t0,a,f) for f in fs])
def setter(sig,f,ghost): over(P,Con(sig,mods=(f,),sets={f:lambda c: c.a(0).t},ghost=ghost,throws=False))
setter('cards::port::decount(i32)','m_decount',{'g:lv_done':lambda c: z3.Store(c.go('lv_done'),c.o('m_index').t,z3.simplify(c.a(0).t==-1))})
setter('cards::port::level(i32)','m_level',{'g:lv_lev':lambda c: z3.Store(c.go('lv_lev'),c.o('m_index').t,c.a(0).t)})
def injective(t):
    a,b=qs('a','b'); return z3.ForAll([a,b],Implies(And(in_(t,a),in_(t,b),idx(t,a)==idx(t,b)),a==b),**({'patterns':[z3.MultiPattern(idx(t,a),idx(t,b))]} if pat_ok(idx(t,a)) else {}))
def frame_all(t0,t1,*fs):
    a,=qs('a'); return fa([a],Implies(in_(t0,a),same_fields(t0,t1,a,*fs)),e_(t1,a))
def same_ports(t0,t1): return mdom(t1,MT)==mdom(t0,MT)
KEPT=('m_index','m_dependencies','m_collection')
# ---------------------------------------------------------------- what confirmDependencies makes of a port
def own_indexes(t,a,seen=None):
    """the indexes of a are those of the known ports its dependencies (those in `seen`) name, its own excepted"""
    d,=qs('d'); k=z3.Int('k!cd'); s=base(d); D=(lambda d: z3.Select(deps(t,a),d)) if seen is None else (lambda d: z3.Select(seen,d))
    return (lambda A,n: [('every index is that of a dependency',fa([k],Implies(And(0<=k,k<n),z3.Exists([d],And(D(d),in_(t,s),idx(t,s)==z3.Select(A,k),idx(t,s)!=idx(t,a)))),z3.Select(A,k))),
      ('every dependency that is a port has its index there',fa([d],Implies(And(D(d),in_(t,s),idx(t,s)!=idx(t,a)),z3.Exists([k],And(0<=k,k<n,z3.Select(A,k)==idx(t,s)))),D(d)))])
def fresh_port(t,a): return And(dc(t,a)==0,dr(t,a)==0,lev(t,a)==0)
def none_done(D): x=z3.Int('x!cd'); return fa([x],Not(z3.Select(D,x)),z3.Select(D,x))
def all_fresh(t): a,=qs('a'); return fa([a],Implies(in_(t,a),fresh_port(t,a)),e_(t,a))
def bad_pos(b,a,s): k=z3.Int('k!bd'); m=z3.Select(varr(b,VS),k); return z3.Exists([k],And(0<=k,k<vlen(b,VS),mentions(m,s),mentions(m,a)))
def bad_all(t,b,vis,seen=None): 
    a,d=qs('a','d'); return z3.ForAll([a,d],Implies(And(vis(a),z3.Select(deps(t,a),d) if seen is None else z3.Select(seen,d),Not(in_(t,base(d)))),bad_pos(b,a,base(d))))
# how many of the dependencies in S name no port of those in K; the sum of that over the ports in S
SB=z3.ArraySort(Str,B)
nb=z3.Function('unknowndeps',SB,SB,I); _S1,_K1=z3.Consts('S!nb K!nb',SB); _y=z3.Const('y!nb',Str); _SS=z3.Store(_S1,_y,TRUE)
solve.EXTRA_AX.append((('unknowndeps',),[z3.ForAll([_K1],nb(z3.K(Str,FALSE),_K1)==0,patterns=[nb(z3.K(Str,FALSE),_K1)]),z3.ForAll([_S1,_K1,_y],Implies(Not(z3.Select(_S1,_y)),nb(_SS,_K1)==nb(_S1,_K1)+one(Not(z3.Select(_K1,base(_y))))),patterns=[nb(_SS,_K1)])]))
def nbp(S,t):
    f=z3.Function('unknownall',SB,sort(MT),I)
    if not _nbp:
        _nbp.append(1); t_=z3.Const('t!nb',sort(MT))
        solve.EXTRA_AX.append((('unknownall',),[z3.ForAll([t_],f(z3.K(Str,FALSE),t_)==0,patterns=[f(z3.K(Str,FALSE),t_)]),z3.ForAll([_S1,t_,_y],Implies(Not(z3.Select(_S1,_y)),f(_SS,t_)==f(_S1,t_)+nb(deps(t_,_y),mdom(t_,MT))),patterns=[f(_SS,t_)])]))
    return f(S,t)
_nbp=[]
def cd_pre(c):
    t=c.o(MP).t; return [('every port has an index of its own',injective(t)),('no level is given yet',all_fresh(t)),('no level is given yet (by index)',none_done(c.go('lv_done')))]
def cd_post(c):
    t0,t=c.o(MP).t,c.n(MP).t; a,=qs('a'); o=lambda i: fa([a],Implies(in_(t,a),own_indexes(t,a)(V(t,a),N(t,a))[i][1]),e_(t,a))
    return [('the ports stay the same',same_ports(t0,t)),('they keep what was read',frame_all(t0,t,*KEPT,'m_level','m_decrement')),
      ('every index of a port is that of a dependency',o(0)),('every dependency that is a port has its index there',o(1)),
      ('all of them are still to be treated',fa([a],Implies(in_(t,a),And(N(t,a)>=0,N(t,a)<2**31,dc(t,a)==N(t,a))),e_(t,a))),('no level is given yet',none_done(c.gn('lv_done'))),
      ('every dependency on an unknown port is reported',bad_all(t,c.n(BD).t,lambda a: in_(t,a))),('once for each such dependency',vlen(c.n(BD).t,VS)==vlen(c.o(BD).t,VS)+nbp(mdom(t0,MT),t0))]
def tbls(h,mods): return [l for l in mods if l[0]=='l' and isinstance(get(h,l),T) and get(h,l).ty==MT]
def cd_hint(ex,st,h,mods):
    out=[]; a,d=qs('a','d'); G=('g','lv_done')
    vecs=[l for l in mods if isinstance(get(h,l),T) and get(h,l).ty and spec.strip_ref(get(h,l).ty)==VU and l[0]=='l']
    bads=[l for l in mods if l[0]=='l' and l[2] and str(l[2][-1][1]).endswith(BD)]
    ints=[l for l in mods if l[0]=='l' and not l[2] and isinstance(get(h,l),T) and get(h,l).ty=='u32']
    for k in mods:
        it=get(h,k)
        if not isinstance(it,It) or it.kind!='key': continue
        for l in tbls(h,mods):
            t0=get(st,l).t; ok=lambda v: v[l]
            out.append(('the ports stay the same',lambda v,m,l=l,t0=t0: same_ports(t0,v[l])))
            out.append(('they keep what was read',lambda v,m,l=l,t0=t0: frame_all(t0,v[l],*KEPT,'m_level','m_decrement')))
            if it.cty!=SS:
                out.append(('ports not passed are as they were',lambda v,m,l=l,k=k,t0=t0: fa([a],Implies(And(in_(t0,a),Not(z3.Select(v[k],a))),e_(v[l],a)==e_(t0,a)),e_(v[l],a))))
                for i in (0,1): out.append(('indexes of the ports passed (%d)'%i,lambda v,m,l=l,k=k,i=i: fa([a],Implies(z3.Select(v[k],a),own_indexes(v[l],a)(V(v[l],a),N(v[l],a))[i][1]),e_(v[l],a))))
                out.append(('all of those are to be treated',lambda v,m,l=l,k=k: fa([a],Implies(z3.Select(v[k],a),And(N(v[l],a)>=0,N(v[l],a)<2**31,dc(v[l],a)==N(v[l],a))),e_(v[l],a))))
                for b in bads: out.append(('unknown ports are reported',lambda v,m,l=l,k=k,b=b: bad_all(v[l],v[b],lambda a: z3.Select(v[k],a))))
        if it.cty!=SS:
            for b in bads: out.append(('one report for each unknown dependency passed',lambda v,m,b=b,k=k,b0=get(st,b).t,t=tables(st): vlen(v[b],VS)==vlen(b0,VS)+nbp(v[k],t)))
        else: cd_inner(ex,st,h,mods,k,vecs,bads,ints,out)
    if G in mods: out.append(('no level is given yet',lambda v,m: none_done(v[G])))
    return out
def tables(st):
    for r,w in st.store.items():
        for p,y in loops.leaves(w):
            if isinstance(y,T) and y.ty==MT: return y.t
def outer(st,mods):
    """the port an enclosing loop over the ports is at"""
    for r,w in st.store.items():
        for p,y in loops.leaves(w):
            if isinstance(y,It) and y.kind=='key' and ('l',r,p) not in mods and spec.strip_ref(y.cty)==MT: return y.cur
def cd_inner(ex,st,h,mods,k,vecs,bads,ints,out):
    a,d=qs('a','d'); me=outer(st,mods)
    if me is None: return
    tl=tbls(h,mods); t0=tables(st)
    T_=(lambda v: v[tl[0]]) if tl else (lambda v: t0)
    if tl: out.append(('only this port changes',lambda v,m: fa([a],Implies(And(in_(t0,a),a!=me),e_(T_(v),a)==e_(t0,a)),e_(T_(v),a))))
    for x in vecs:
        L=lambda v,x=x: vlen(v[x],VU)
        out.append(('a length',lambda v,m,L=L: And(L(v)>=0,L(v)<2**31)))
        for i in ints: out.append(('counted',lambda v,m,L=L,i=i: v[i]==L(v)+1))
        if tl: out.append(('its count follows',lambda v,m,L=L: dc(T_(v),me)==L(v)))
        for i in (0,1): out.append(('indexes of the dependencies passed (%d)'%i,lambda v,m,x=x,i=i,L=L: own_indexes(t0,me,v[k])(varr(v[x],VU),L(v))[i][1]))
    for b in bads: out.append(('one report for each unknown dependency passed',lambda v,m,b=b,b0=get(st,b).t: vlen(v[b],VS)==vlen(b0,VS)+nb(v[k],mdom(t0,MT))))
    for b in bads:
        b0=get(st,b).t; j=z3.Int('j!bd')
        out.append(('reports stay',lambda v,m,b=b,b0=b0: And(vlen(v[b],VS)>=vlen(b0,VS),fa([j],Implies(And(0<=j,j<vlen(b0,VS)),z3.Select(varr(v[b],VS),j)==z3.Select(varr(b0,VS),j)),z3.Select(varr(v[b],VS),j),z3.Select(varr(b0,VS),j)))))
        out.append(('unknown dependencies passed are reported',lambda v,m,b=b: z3.ForAll([d],Implies(And(z3.Select(v[k],d),Not(in_(t0,base(d)))),bad_pos(v[b],me,base(d))))))
root(P,over(P,Con('cards::pkgfile::confirmDependencies()',pre=cd_pre,post=cd_post,mods=(MP,BD,'g:lv_done'),throws=False,opts={'hints':cd_hint,'noauto':('',),'optimistic':True,'small':True,'hint_ms':15000})))

# ---------------------------------------------------------------- levels
GL='cards::pkgfile::generate_level()'; FIX=KEPT+('m_indexes',)
def every(t,f,*w): a,=qs('a'); return fa([a],Implies(And(in_(t,a),*[x(a) for x in w]),f(a)),e_(t,a))
def isdone(t,D): return every(t,lambda a: z3.Select(D,idx(t,a))==(dc(t,a)==-1))
def above(t,a,D,Lv,below): k=z3.Int('k!gl'); x=z3.Select(V(t,a),k); return fa([k],Implies(And(0<=k,k<N(t,a)),And(z3.Select(D,x),z3.Select(Lv,x)<below)),x)
def placed(t,D,Lv,top): return every(t,lambda a: Implies(dc(t,a)==-1,And(lev(t,a)==z3.Select(Lv,idx(t,a)),0<=lev(t,a),lev(t,a)<=top if top is not None else TRUE,above(t,a,D,Lv,lev(t,a)))))
def others(t): k=z3.Int('k!gl'); return every(t,lambda a: And(0<=N(t,a),N(t,a)<2**31,fa([k],Implies(And(0<=k,k<N(t,a)),z3.Select(V(t,a),k)!=idx(t,a)),z3.Select(V(t,a),k))))
def left(t,a,D): return N(t,a)-cnt(V(t,a),N(t,a),D)
def low(D,Lv,top): x=z3.Int('x!gl'); return fa([x],Implies(z3.Select(D,x),z3.Select(Lv,x)<=top),z3.Select(D,x),z3.Select(Lv,x))
def gl_inv(t,D,Lv,L):
    return [('every port has an index of its own',injective(t)),('no port waits for itself',others(t)),('ports with a level are marked',isdone(t,D)),
      ('ports with a level are above all they depend on',placed(t,D,Lv,L-1)),('levels given are below the next',low(D,Lv,L-1)),
      ('the others wait for exactly those without a level',every(t,lambda a: And(dr(t,a)==0,Implies(dc(t,a)!=-1,dc(t,a)==left(t,a,D))))),
      ('ports that depend on nothing are at level zero',every(t,lambda a: Implies(N(t,a)==0,If_(dc(t,a)==-1,lev(t,a)==0,L==0))))]
def If_(c,a,b): return And(Implies(c,a),Implies(Not(c),b))
def gl_pre(c): return gl_inv(c.o(MP).t,c.go('lv_done'),c.go('lv_lev'),c.o('m_level').t)+[('a level',c.o('m_level').t>=0)]
def gl_post(c):
    t0,t=c.o(MP).t,c.n(MP).t; D,Lv=c.gn('lv_done'),c.gn('lv_lev'); k=z3.Int('k!gl')
    return [('the ports stay the same',same_ports(t0,t)),('they keep what they depend on',frame_all(t0,t,*FIX)),('ports with a level are marked',isdone(t,D)),
      ('ports with a level are above all they depend on',placed(t,D,Lv,None)),('ports that depend on nothing are at level zero',every(t,lambda a: Implies(N(t,a)==0,And(dc(t,a)==-1,lev(t,a)==0)))),
      ('a port gets no level only if one it depends on gets none',every(t,lambda a: Implies(dc(t,a)!=-1,z3.Exists([k],And(0<=k,k<N(t,a),Not(z3.Select(D,z3.Select(V(t,a),k)))))) ))]
def gl_setup(ex,st,this,args):
    ex.gl=ex.read(st,this.f('cards::pkgfile::m_level','u32')).t; st.assume(ex.gl<2**31-1)
def curs_out(st,mods):
    out=[]
    for r,w in st.store.items():
        for p,y in loops.leaves(w):
            if isinstance(y,It) and y.kind=='key' and ('l',r,p) not in mods and spec.strip_ref(y.cty)==MT: out.append(y.cur)
    return out
def gl_hint(ex,st,h,mods):
    out=[]; a,=qs('a'); GD,GV=('g','lv_done'),('g','lv_lev'); L=ex.gl; tl=tbls(h,mods)
    if not tl: return out
    l=tl[0]; t0=get(st,l).t; D0=ex.g(st,'lv_done',AB); V0=ex.g(st,'lv_lev',AI)
    T_=lambda v: v[l]; D=(lambda v: v[GD]) if GD in mods else (lambda v: D0); W=(lambda v: v[GV]) if GV in mods else (lambda v: V0)
    A=lambda n,f: out.append((n,f)); en=curs_out(st,mods)
    A('the ports stay the same',lambda v,m: same_ports(t0,T_(v))); A('they keep what they depend on',lambda v,m: frame_all(t0,T_(v),*FIX))
    hasit=any(isinstance(get(h,c),It) for c in mods)
    for c in mods:
        it=get(h,c); pos=not hasit and c[0]=='l' and not c[2] and isinstance(it,T) and it.t.sort()==I     # a position counted by hand
        if pos: out.append(('a position',lambda v,m,c=c: v[c]>=0))
        elif not isinstance(it,It): continue
        ps=(lambda v,c=c: lambda a: z3.Select(v[c],a))
        if not pos and it.kind=='key' and GV in mods:
            fl=[x for x in mods if x[0]=='l' and not x[2] and isinstance(get(h,x),T) and get(h,x).t.sort()==B]
            A('ports with a level are marked',lambda v,m: isdone(T_(v),D(v)))
            A('the others keep their count',lambda v,m: every(T_(v),lambda a: If_(dc(T_(v),a)==-1,Or(dc(t0,a)==-1,dc(t0,a)==0),dc(T_(v),a)==dc(t0,a))))
            A('ports passed that wait for nothing got their level',lambda v,m,ps=ps: every(T_(v),lambda a: Implies(ps(v)(a),dc(T_(v),a)!=0)))
            A('those counted off are those that got a level',lambda v,m: every(T_(v),lambda a: And(0<=dr(T_(v),a),If_(dc(T_(v),a)>0,dc(T_(v),a)-dr(T_(v),a)==left(T_(v),a,D(v)),dr(T_(v),a)==0))))
            A('ports with a level are above all they depend on',lambda v,m: placed(T_(v),D(v),W(v),L))
            A('ports that wait for nothing will be',lambda v,m: every(T_(v),lambda a: Implies(dc(T_(v),a)==0,above(T_(v),a,D(v),W(v),L))))
            A('levels given are not above this one',lambda v,m: low(D(v),W(v),L))
            A('ports that depend on nothing are at level zero',lambda v,m: every(T_(v),lambda a: Implies(And(N(T_(v),a)==0,dc(T_(v),a)==-1),lev(T_(v),a)==0)))
            for f in fl: A('nothing is counted off unless a level is given',lambda v,m,f=f: Or(v[f],every(T_(v),lambda a: dr(T_(v),a)==0)))
        elif not pos and it.kind=='key' and GD not in mods:
            A('only the number to count off changes',lambda v,m: frame_all(t0,T_(v),*FIX,'m_level','m_decount'))
            A('ports not passed are as they were',lambda v,m,ps=ps: fa([a],Implies(And(in_(t0,a),Not(ps(v)(a))),e_(T_(v),a)==e_(t0,a)),e_(T_(v),a)))
            for me in en: A('counted off as often as they depend on it',lambda v,m,ps=ps,me=me: every(T_(v),lambda a: Implies(ps(v)(a),dr(T_(v),a)==dr(t0,a)+z3.If(And(a!=me,dc(t0,a)>0),occ(V(t0,a),N(t0,a),idx(t0,me)),z3.IntVal(0)))))
        elif not pos and it.kind=='key':
            A('ports not passed are as they were',lambda v,m,ps=ps: fa([a],Implies(And(in_(t0,a),Not(ps(v)(a))),e_(T_(v),a)==e_(t0,a)),e_(T_(v),a)))
            A('levels stay',lambda v,m: frame_all(t0,T_(v),*FIX,'m_level'))
            A('the count of the ports passed',lambda v,m,ps=ps: every(T_(v),lambda a: Implies(ps(v)(a),And(dr(T_(v),a)==0,dc(T_(v),a)==dc(t0,a)-dr(t0,a)))))
            A('no level is given here',lambda v,m: D(v)==D0)
        elif GD not in mods and (pos or it.kind=='idx' and spec.strip_ref(it.cty)==VU):
            for i,j in list(enumerate(en))[-1:]:   # the innermost
                A('only this port changes (%d)'%i,lambda v,m,j=j: fa([a],Implies(And(in_(t0,a),a!=j),e_(T_(v),a)==e_(t0,a)),e_(T_(v),a)))
                if pos: A('a position in the list (%d)'%i,lambda v,m,c=c,j=j: And(0<=v[c],v[c]<=N(t0,j)))
                A('only the number to count off changes',lambda v,m: frame_all(t0,T_(v),*FIX,'m_level','m_decount'))
                for q,me in enumerate(en):
                    if q==i: continue
                    def G(v,m,j=j,me=me,c=c):
                        A_=V(t0,j); x=idx(t0,me); g=dr(T_(v),j)==dr(t0,j)+occ(A_,v[c],x)
                        return Implies(odef(A_,v[c]-1,x),g) if m=='step' else g
                    A('counted off as often as it depends on it so far (%d)'%i,G)
    return out
root(P,over(P,Con(GL,pre=gl_pre,post=gl_post,mods=(MP,'m_level','g:lv_done','g:lv_lev'),throws=False,setup=gl_setup,opts={'hints':gl_hint,'noauto':('',),'optimistic':True,'small':True,'hint_ms':6000})))

# ---------------------------------------------------------------- all ports read
def ps_setup(ex,st,this,args): st.ghost['lv_done']=z3.K(I,FALSE)
def ps_pre(c): t=c.o(MP).t; return [('levels start at zero',Implies(mdom(t,MT)==emptyset(Str),c.o('m_level').t==0))]
def ps_post(c):
    t0,t=c.o(MP).t,c.n(MP).t; d,=qs('d'); a,=qs('a'); new=mdom(t0,MT)==emptyset(Str); s=base(d); b=c.n(BD).t
    return [('ports that are read already stay',Implies(Not(new),t==t0)),
      ('a port that got a level is above each port it depends on',Implies(new,z3.ForAll([a,d],Implies(And(in_(t,a),dc(t,a)==-1,z3.Select(deps(t,a),d),in_(t,s),s!=a),lev(t,s)<lev(t,a))))),
      ('a port that depends on no other port is at level zero',Implies(new,z3.ForAll([a],Implies(And(in_(t,a),z3.ForAll([d],Implies(And(z3.Select(deps(t,a),d),in_(t,s),idx(t,s)==z3.Select(V(t,a),0)),s==a))),And(dc(t,a)==-1,lev(t,a)==0))))),
      ('a port gets no level only if one it depends on gets none',Implies(new,z3.ForAll([a],Implies(And(in_(t,a),dc(t,a)!=-1),z3.Exists([d],And(z3.Select(deps(t,a),d),in_(t,s),s!=a,dc(t,s)!=-1)))))),
      ('every dependency on an unknown port is reported',Implies(new,bad_all(t,b,lambda a: in_(t,a))))]
def ps_hint(ex,st,h,mods):
    out=[]; a,=qs('a')
    for l in tbls(h,mods):
        for x in mods:
            y=get(h,x)
            if x[0]=='l' and not x[2] and isinstance(y,T) and y.ty=='u32':
                out.append(('every port read so far has its own index',lambda v,m,l=l,x=x: And(v[x]>=0,injective(v[l]),every(v[l],lambda a: And(idx(v[l],a)>=0,idx(v[l],a)<v[x])))))
        out.append(('no level is given yet',lambda v,m,l=l: all_fresh(v[l])))
    return out
root(P,over(P,Con('cards::pkgfile::parse()',pre=ps_pre,post=ps_post,mods=(MP,BD,'m_level','g:lv_done','g:lv_lev','g:_inerr'),throws=RT,setup=ps_setup,opts={'hints':ps_hint,'noauto':('',),'hint_ms':4000,'optimistic':True})))
