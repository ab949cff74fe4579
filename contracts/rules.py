"""C04, C06, C24: INSTALL / UPGRADE / trigger rules."""
from contracts.base import *
import loops
from loops import get
VR='std::vector(rec:rule_t)'
LDCONF,UPGRADE,INSTALL=0,1,2
TRIG,ALL=100,200        # selection modes: a trigger rule; any rule
_c={}
def R():
    """vocabulary over rule arrays: lk(arr,n,mode,f) = index of the last rule among arr[0..n) selected by mode that matches f, or -1"""
    if _c: return _c
    arrs=varr(z3.Const('x!r',sort(VR)),VR).sort(); rs=sort('rec:rule_t')
    def fld(r,n): return unpack(r,'rec:rule_t').f['rule_t::'+n].t
    lk=z3.Function('lastrule',arrs,I,I,Str,I); 
    A=z3.Const('A!r',arrs); n,mo,k=z3.Ints('n!r mo!r k!r'); f=z3.Const('f!r',Str)
    def sel(r,mo): 
        e=fld(r,'event'); return z3.Or(mo==ALL,z3.And(mo==TRIG,e!=UPGRADE,e!=INSTALL),e==mo)
    def hit(r,mo,f): return z3.And(sel(r,mo),lib.rmatch(fld(r,'pattern'),f))
    r=lk(A,n,mo,f)
    defs=[z3.ForAll([A,n,mo,f],z3.Implies(n>=0,z3.And(r>=-1,r<n,z3.Implies(r>=0,hit(z3.Select(A,r),mo,f)))),patterns=[r]),
        z3.ForAll([A,n,mo,f,k],z3.Implies(z3.And(0<=k,k<n,k>r),Not(hit(z3.Select(A,k),mo,f))),patterns=[z3.MultiPattern(r,z3.Select(A,k))])]
    x=z3.Const('x!r',rs); m=z3.Int('m!r')
    der=[z3.ForAll([A,k,x,n,mo,f],z3.Implies(z3.And(k>=0,n==k+1),lk(z3.Store(A,k,x),n,mo,f)==z3.If(hit(x,mo,f),k,lk(A,k,mo,f))),patterns=[lk(z3.Store(A,k,x),n,mo,f)]),
        z3.ForAll([A,k,n,mo,f],z3.Implies(z3.And(k>=0,n==k+1),lk(A,n,mo,f)==z3.If(hit(z3.Select(A,k),mo,f),k,lk(A,k,mo,f))),patterns=[z3.MultiPattern(lk(A,n,mo,f),lk(A,k,mo,f))])]
    solve.EXTRA_AX.append((('lastrule',),defs)); solve.EXTRA_AX.append((('lastrule',),der))
    for i,g in enumerate(der): lemma('last matching rule, lemma %d'%i,defs,g,'C04','C06')
    _c.update(lk=lk,fld=fld,hit=hit,sel=sel,arrs=arrs,rs=rs); return _c
def last(v,mo,f): d=R(); return d['lk'](varr(v,VR),vlen(v,VR),z3.IntVal(mo) if isinstance(mo,int) else mo,f)
def at(v,k): return z3.Select(varr(v,VR),k)
# every array element of the rule list carries a known event
def filt_rel(found,rules,n,mo,f):
    """the last match in found is the last match among the first n rules selected by mo"""
    if z3.is_app_of(found,z3.Z3_OP_ITE): return z3.If(found.arg(0),filt_rel(found.arg(1),rules,n,mo,f),filt_rel(found.arg(2),rules,n,mo,f))
    d=R(); a=d['lk'](varr(found,VR),vlen(found,VR),z3.IntVal(ALL),f); b=d['lk'](varr(rules,VR),n,mo,f)
    return z3.And((a>=0)==(b>=0),z3.Implies(a>=0,at(found,a)==at(rules,b)))
def filt_hint(argi,mode):
    def hint(ex,st,h,mods):
        f=z3.Const('f!h',Str); out=[]
        vecs=[l for l in mods if isinstance(get(h,l),T) and get(h,l).ty and strip(get(h,l).ty)==VR]
        curs=[l for l in mods if (isinstance(get(h,l),It) and get(h,l).kind=='idx') or (isinstance(get(h,l),T) and get(h,l).t.sort()==I)]
        mo=mode(ex)
        rules=RULES[0]
        for v in vecs:
            out.append(('list length',lambda x,m,v=v: vlen(x[v],VR)>=0))
            for c in curs:
                d=R()
                out.append(('last match so far (%s)'%len(out),lambda x,m,v=v,c=c: fa([f],filt_rel(x[v],rules.t,x[c],mo,f),d['lk'](varr(x[v],VR),vlen(x[v],VR),z3.IntVal(ALL),f))))
        return out
    return hint
RULES=[None]
def strip(t): return spec.strip_ref(t)
def search_hint(ex,st,h,mods):
    """a search over a rule list has passed no rule that matches the file looked at"""
    d=R(); vecs={}; strs={}; out=[]
    for r,v in st.store.items():
        for p,x in loops.leaves(v):
            if ('l',r,p) in mods: x=None
            if isinstance(x,T) and x.ty and strip(x.ty)==VR: vecs[x.t.get_id()]=x.t
            if isinstance(x,T) and x.ty=='str' and not p: strs[x.t.get_id()]=x.t
    for l in mods:
        x=get(h,l); it=isinstance(x,It) and x.kind=='idx'
        if not it and not (isinstance(x,T) and x.t.sort()==I and x.ty!='bool'): continue
        if len(strs)>12: continue
        for v in vecs.values():
            for f in strs.values():
                L=vlen(v,VR); K=lambda n,v=v,f=f: d['lk'](varr(v,VR),n,z3.IntVal(ALL),f)
                if it: out.append(('no match among the rules passed',lambda y,m,l=l,L=L,K=K: K(L)==K(L-y[l])))
                else:
                    out.append(('no match among the rules passed',lambda y,m,l=l,L=L,K=K: K(L)==K(y[l]+1)))
                    out.append(('no match among the rules passed (bound)',lambda y,m,l=l,L=L,K=K: K(L)==K(y[l])))
                # front to back: the last match so far has decided
                for bl in mods:
                    xb=get(h,bl)
                    if isinstance(xb,T) and xb.ty=='bool' and isinstance(get(st,bl),T):
                        b0=get(st,bl).t
                        out.append(('the last match so far has decided (%s)'%len(out),lambda y,m,l=l,bl=bl,v=v,K=K,b0=b0: And(y[l]>=0,y[bl]==z3.If(K(y[l])>=0,act(at(v,K(y[l]))),b0))))
    return out
def fsetup(ri,fi):
    def setup(ex,st,this,args):
        RULES[0]=ex.read(st,args[ri])
    return setup
MODE=[None]
def filt_pre(fi):
    return lambda c:[('the result list starts empty',vlen(c.a(fi).t,VR)==0),('rules length',vlen(c.a(0).t,VR)>=0)]
def filt_post(fi,mode):
    def post(c):
        f,=qs('f'); d=R(); fo=c.an(fi).t; ru=c.a(0).t; mo=mode(c)
        return [('the last match in the selected list is the last selected match in the rules',
                 fa([f],filt_rel(fo,ru,vlen(ru,VR),mo,f),d['lk'](varr(fo,VR),vlen(fo,VR),z3.IntVal(ALL),f))),('length',vlen(fo,VR)>=0)]
    return post
def mode_install(c): return c.a(1).t
def setup_i(ex,st,this,args):
    RULES[0]=ex.read(st,args[0]); MODE[0]=args[1].t; st.assume(z3.And(args[1].t>=0,args[1].t<=12))
def setup_t(ex,st,this,args): RULES[0]=ex.read(st,args[0]); MODE[0]=z3.IntVal(TRIG)
add(Con('pkgadd::getInstallRulesList(cref(std::vector(rec:rule_t)),enum:cards::rule_event_t,ref(std::vector(rec:rule_t)))c',
    pre=lambda c: filt_pre(2)(c)+[('a rule event is asked for',z3.And(c.a(1).t>=0,c.a(1).t<=12))],post=filt_post(2,mode_install),mods=('arg2',),throws=False,setup=setup_i,opts={'hints':filt_hint(2,lambda ex:MODE[0])}),'C04')
add(Con('pkgadd::getPostInstallRulesList(cref(std::vector(rec:rule_t)),ref(std::vector(rec:rule_t)))c',
    pre=filt_pre(1),post=filt_post(1,lambda c:z3.IntVal(TRIG)),mods=('arg1',),throws=False,setup=setup_t,opts={'hints':filt_hint(1,lambda ex:MODE[0])}),'C06')
add(Con('pkgdbh::checkRuleAppliesToFile(cref(rec:rule_t),cref(str))',
    post=lambda c:[('the rule applies exactly when its pattern matches',c.ret.t==lib.rmatch(R()['fld'](c.a(0).t if isinstance(c.a(0),T) else pack(c.a(0)),'pattern'),c.a(1).t))],
    mods=('m_actualError',),throws='rec:std::runtime_error'),'C04','C06')
def ev(r): return R()['fld'](r,'event')
def act(r): return R()['fld'](r,'action')
def keep_post(c):
    f,=qs('f'); ru=c.a(1).t; b=last(ru,UPGRADE,f)
    return [('a file is kept exactly when the last matching UPGRADE rule says NO',z3.ForAll([f],z3.Select(c.ret.t,f)==And(z3.Select(c.a(0).t,f),b>=0,Not(act(at(ru,b))))))]
add(Con('pkgadd::getKeepFileList(cref(std::set(str)),cref(std::vector(rec:rule_t)))',pre=lambda c:[('rules length',vlen(c.a(1).t,VR)>=0)],post=keep_post,mods=('m_actualError',),throws='rec:std::runtime_error',opts={'hints':search_hint}),'C04')
def excluded(c,f):
    ru=c.a(2).t; b=last(ru,INSTALL,f); return And(z3.Select(c.of(c.a(1),'files').t,f),b>=0,Not(act(at(ru,b))))
def apply_post4(c):
    f,=qs('f'); 
    return [('left out exactly when the last matching INSTALL rule says NO',z3.ForAll([f],z3.Select(c.ret.t,f)==excluded(c,f))),
            ('the recorded file list is the rest',z3.ForAll([f],z3.Select(c.of(c.an(1),'files').t,f)==And(z3.Select(c.of(c.a(1),'files').t,f),Not(excluded(c,f)))))]
def other_fields(c):
    a,b=c.a(1),c.an(1); a=unpack(a.t,a.ty) if isinstance(a,T) else a; b=unpack(b.t,b.ty) if isinstance(b,T) else b
    return [('%s of the package is unchanged'%k.split('::')[-1],Eq(pack(a.f[k]),pack(b.f[k]))) for k in a.f if not k.endswith('::files')]
PI='std::pair(str,i32)'
def apply_post6(c):
    f,=qs('f'); p=z3.Const('p!pi',sort(PI)); ru=c.a(2).t; b=last(ru,TRIG,f)
    old=c.o('m_postInstallList').t; new=c.n('m_postInstallList').t
    want=z3.Exists([f],And(z3.Select(c.of(c.a(1),'files').t,f),b>=0,act(at(ru,b)),p==mkpair(Ite(ev(at(ru,b))==LDCONF,lit(''),f),ev(at(ru,b)),PI)))
    return [('only triggers of the last matching trigger rule are queued',z3.ForAll([p],z3.Implies(z3.Select(new,p),z3.Or(z3.Select(old,p),want)))),
            ('every such trigger is queued',z3.ForAll([p],z3.Implies(z3.Or(z3.Select(old,p),want),z3.Select(new,p))))]
AP='pkgadd::applyInstallRules(cref(str),ref(rec:cards::db),cref(std::vector(rec:rule_t)))'
def ap(**k): return Con(AP,pre=lambda c:[('rules length',vlen(c.a(2).t,VR)>=0)],mods=('m_actualError','m_postInstallList','arg1'),throws='rec:std::runtime_error',opts={'hints':search_hint},**k)
add(ap(post=lambda c: apply_post4(c)+other_fields(c)),'C04')
root('C06',ap(post=apply_post6))
LATE.append(R)
# ---------------------------------------------------------------- C24
VS=lib.VS
EVENTS=('LDCONF','UPGRADE','INSTALL','INFO','ICONS','FONTS','SCHEMAS','DESKTOP_DB','MIME_DB','QUERY_PIXBUF','GIO_QUERY','QUERY_IMOD3','QUERY_IMOD2')
def word(l,k): return z3.Select(varr(lib.wordv(l),VS),z3.IntVal(k))
def nwords(l): return vlen(lib.wordv(l),VS)
def isrule(l): return z3.And(slen(l)>0,strat(l,z3.IntVal(0))!=ord('#'))
def evof(w):
    r=z3.IntVal(-1); en=dict(core.ENUMS['cards::rule_event_t'])
    for n in EVENTS: r=z3.If(w==lit(n),z3.IntVal(en[n]),r)
    return r
def goodline(l): return z3.Implies(isrule(l),z3.And(slen(l)<1024,nwords(l)==3,evof(word(l,0))>=0,z3.Or(word(l,2)==lit('YES'),word(l,2)==lit('NO'))))
_f={}
def rulesOf():
    if 'f' in _f: return _f['f']
    vs=sort(VS); vr=sort(VR); f=z3.Function('rulesof',vs,I,vr); v=z3.Const('v!ru',vs); n,m=z3.Ints('n!ru m!ru'); l=z3.Select(varr(v,VS),n)
    x=unpack(z3.Const('x!ru',sort('rec:rule_t')),'rec:rule_t'); x.f=dict(x.f)
    x.f['rule_t::event']=T(evof(word(l,0)),x.f['rule_t::event'].ty); x.f['rule_t::pattern']=T(word(l,1),'str'); x.f['rule_t::action']=T(word(l,2)==lit('YES'),'bool')
    p=f(v,n); r=pack(x)
    solve.EXTRA_AX.append((('rulesof',),[z3.ForAll([v],f(v,z3.IntVal(0))==mkvec(z3.IntVal(0),lib.core_arr0(VR),VR),patterns=[f(v,z3.IntVal(0))]),
      z3.ForAll([v,n,m],z3.Implies(z3.And(n>=0,m==n+1),f(v,m)==z3.If(isrule(l),mkvec(vlen(p,VR)+1,z3.Store(varr(p,VR),vlen(p,VR),r),VR),p)),patterns=[z3.MultiPattern(f(v,m),f(v,n))])]))
    _f['f']=f; return f
def rf_path(c): return cat(c.o('m_root').t,lit('var/lib/pkg/pkgadd.conf'))
def rf_lines(c): return terms.sel(c.go('fs_lines'),rf_path(c))
def rf_ok(v,n,k=None): k=z3.Int('k!rf'); l=z3.Select(varr(v,VS),k); return fa([k],z3.Implies(z3.And(0<=k,k<n),goodline(l)),l)
def same_rules(a,b): k=z3.Int('k!sr'); return z3.And(vlen(a,VR)==vlen(b,VR),fa([k],z3.Implies(z3.And(0<=k,k<vlen(a,VR)),at(a,k)==at(b,k)),at(a,k)))
def rf_hint(ex,st,h,mods):
    out=[]; f=rulesOf(); L=terms.sel(ex.lib.g(ex,st,'fs_lines'),ex.rfp); n=vlen(L,VS)
    rv=[l for l in mods if isinstance(get(h,l),T) and get(h,l).ty and strip(get(h,l).ty)==VR]
    for l in mods:
        if l[0]!='l' or not l[2] or l[2][-1]!=('s','pos'): continue
        out.append(('within the file',lambda v,m,l=l: z3.And(v[l]>=0,v[l]<=n,n>=0)))
        out.append(('every line so far is well formed',lambda v,m,l=l: rf_ok(L,v[l])))
        for r in rv: out.append(('the rules of the lines so far',lambda v,m,l=l,r=r: same_rules(v[r],f(L,v[l]))))
        for e in mods:
            if e[0]=='l' and e[1]==l[1] and e[2][-1][1] in('eof','fail'): out.append(('%s only at the end'%e[2][-1][1],lambda v,m,l=l,e=e: z3.Implies(v[e],v[l]==n)))
    return out
def rf_setup(ex,st,this,args): ex.rfp=cat(ex.read(st,this.f('pkgdbh::m_root','str')).t,lit('var/lib/pkg/pkgadd.conf')); st.ghost['_inerr']=FALSE; st.assume(vlen(terms.sel(ex.lib.g(ex,st,'fs_lines'),ex.rfp),VS)>=0)
def rf_post(c):
    v=rf_lines(c); n=vlen(v,VS); o=c.o('m_actionRules').t; r=c.n('m_actionRules').t; opened=Not(c.gn('_inerr'))
    return [('rules already loaded stay',z3.Implies(vlen(o,VR)>0,Eq(r,o))),
        ('one rule per rule line, in file order',z3.Implies(z3.And(vlen(o,VR)==0,opened),same_rules(r,rulesOf()(v,n)))),
        ('no rules without a file',z3.Implies(z3.And(vlen(o,VR)==0,Not(opened)),vlen(r,VR)==0)),
        ('every line is well formed',z3.Implies(z3.And(vlen(o,VR)==0,opened),rf_ok(v,n)))]
def rf_xpost(c):
    v=rf_lines(c); n=vlen(v,VS); return [('some line is not well formed',Not(rf_ok(v,n)))]
add(Con('pkgdbh::readRulesFile()',pre=lambda c:[('a list has a length',vlen(c.o('m_actionRules').t,VR)>=0)],post=rf_post,xpost=rf_xpost,mods=('m_actionRules',),xmods=('m_actionRules','m_actualError'),throws='rec:std::runtime_error',setup=rf_setup,opts={'hints':rf_hint}),'C24')
LATE.append(rulesOf)
