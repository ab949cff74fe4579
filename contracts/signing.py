"""C18: nothing remote is accepted without a valid signature."""
from contracts.base import *
from contracts.common import RT
from contracts.records import fld
from contracts.report import sorts
from lib import fbyte,flen
from loops import get
import loops
P='C18'
MP='m_listOfPackages'; RP='m_listOfRepoPackages'; CT='rec:cards::cache'; MT='std::map(str,rec:cards::cache)'
SHA=z3.Function('sha512',Str,I,I)          # byte j of the digest of the content of a file
HEX2=lib.hex2; ST16=lib.stoi16
def init_():
    v=z3.Int('v!hx'); p=z3.Const('p!sh',Str); j=z3.Int('j!sh')
    solve.EXTRA_AX.append((('hex2',),[z3.ForAll([v],Implies(And(0<=v,v<256),And(slen(HEX2(v))==2,ST16(HEX2(v))==v)),patterns=[HEX2(v)])]))
    solve.EXTRA_AX.append((('sha512',),[z3.ForAll([p,j],And(0<=SHA(p,j),SHA(p,j)<256),patterns=[SHA(p,j)])]))
    a,b=z3.Const('a!hx',Str),z3.Const('b!hx',Str); i,n=z3.Ints('i!hx n!hx'); w=lib.ssub(lib.scat(a,b) if hasattr(lib,'scat') else core.scat(a,b),i,n)
    solve.EXTRA_AX.append((('hex2','scat','ssub'),[z3.ForAll([a,b,i,n],Implies(And(0<=i,0<=n,i+n<=slen(a)),w==lib.ssub(a,i,n)),patterns=[w]),z3.ForAll([a,b,i,n],Implies(And(i==slen(a),n==slen(b)),w==b),patterns=[w])]))
init_()
SHA512=z3.Const('EVP_SHA512!',Opq)
for n,s in (('_mdctx',Opq),('_mdok',B),('_mdn',I),('_fhpath',z3.ArraySort(Opq,Str)),('_keyof',z3.ArraySort(Opq,Str)),('_ctxkey',z3.ArraySort(Opq,Str)),('_ctxset',z3.ArraySort(Opq,B))): lib.GS[n]=s
LB=lib.LIB
def op(ex,st,a):
    v=ex.load(st,a); t=v.t if isinstance(v,(T,Raw)) else pack(v); return t
def ret(ex,st,fn): return ex.frv(st,fn['name'].split('::')[-1],fn['ret'])
def x_sha512(ex,st,fn,obj,a,e): return T(SHA512,fn['ret'])
def x_init(ex,st,fn,obj,a,e):
    r=ret(ex,st,fn); st.ghost['_mdctx']=op(ex,st,a[0]); st.ghost['_mdok']=And(r.t==1,op(ex,st,a[1])==SHA512); st.ghost['_mdn']=z3.IntVal(0); return r
def x_update(ex,st,fn,obj,a,e):
    r=ret(ex,st,fn); g=lambda n: LB.g(ex,st,n); b=LB.S(ex,st,a[1]); n=LB.In(ex,st,a[2]); j=z3.Int('j!md'); off=g('_mdn')
    st.ghost['_mdok']=And(g('_mdok'),r.t==1,op(ex,st,a[0])==g('_mdctx'),fa([j],Implies(z3.And(0<=j,j<n),strat(b,j)==fbyte(ex.md_path,off+j)),strat(b,j)))
    st.ghost['_mdn']=off+n; return r
def x_final(ex,st,fn,obj,a,e):
    r=ret(ex,st,fn); g=lambda n: LB.g(ex,st,n); j=z3.Int('j!mf'); good=And(g('_mdok'),r.t==1,op(ex,st,a[0])==g('_mdctx'),g('_mdn')==flen(ex.md_path))
    t=fresh('digest',Str); n=fresh('mdlen',I); ln=ex.load(st,a[2]); st.assume(n>=0,n<=64,Implies(good,n==64)); st.assume(fa([j],Implies(And(good,0<=j,j<64),strat(t,j)==SHA(ex.md_path,j)),strat(t,j)))
    b=a[1]; old=ex.load(st,b); ex.write(st,b,T(t,old.ty)); ex.write(st,ln.lv,T(n,'u32')); return r
def hhint(ex,st,h,mods):
    out=[]; p=ex.md_path
    ps=[(l,{x[2][-1][1]:x for x in mods if x[:2]==l[:2] and x[2][:-1]==l[2][:-1]}) for l in mods if l[0]=='l' and l[2] and l[2][-1][1]=='pos']
    for l,f in ps:
        out.append(('what was read is what was digested',lambda v,m,l=l: And(v[('g','_mdok')],v[('g','_mdn')]==v[l],0<=v[l],v[l]<=flen(p))))
        if 'eof' in f: out.append(('all is read at end of file',lambda v,m,l=l,f=f: Implies(v[f['eof']],v[l]==flen(p))))
        if 'fail' in f and 'bad' in f: out.append(('reading ends at the end of the file or with an error',lambda v,m,f=f: Implies(v[f['fail']],Or(v[f['eof']],v[f['bad']]))))
    for l in mods:
        y=get(h,l)
        if l[0]!='l' or not isinstance(y,T): continue
        if l[2] and l[2][-1][1]=='text':
            for c in mods:
                z=get(h,c)
                if c[0]=='l' and not c[2] and isinstance(z,T) and z.t.sort()==I:
                    k=z3.Int('k!hh'); out.append(('two digits for each byte so far',lambda v,m,l=l,c=c: And(0<=v[c],slen(v[l])==2*v[c],fa([k],Implies(z3.And(0<=k,k<v[c]),lib.ssub(v[l],2*k,z3.IntVal(2))==HEX2(SHA(p,k))),SHA(p,k)))))
    return out
EXT={'EVP_sha512':x_sha512,'EVP_DigestInit_ex':x_init,'EVP_DigestUpdate':x_update,'EVP_DigestFinal_ex':x_final}
def hsetup(ex,st,this,args): ex.md_path=ex.load(st,args[0]).t; st.assume(flen(ex.md_path)>=0)
def hhash(h,p): k=z3.Int('k!hh'); return And(slen(h)==128,fa([k],Implies(z3.And(0<=k,k<64),lib.ssub(h,2*k,z3.IntVal(2))==HEX2(SHA(p,k))),SHA(p,k)))
GH='cards::pkgrepo::generateHash(cref(str))'
root(P,over(P,Con(GH,mods=('m_packageFileNameHash','g:_inerr'),throws=('rec:std::runtime_error',),post=lambda c:[('the hash is that of the file on disk',hhash(c.n('m_packageFileNameHash').t,c.a(0).t))],setup=hsetup,opts={'ext':EXT,'hints':hhint})))

# ---------------------------------------------------------------- the signature
VB='std::vector(char)'
def x_fopen(ex,st,fn,obj,a,e):
    r=LB.f_fopen(ex,st,a,e,fn); st.ghost['_fhpath']=z3.Store(LB.g(ex,st,'_fhpath'),r.t,LB.S(ex,st,a[0])); return r
def x_pubkey(ex,st,fn,obj,a,e):
    r=ret(ex,st,fn); st.ghost['_keyof']=z3.Store(LB.g(ex,st,'_keyof'),r.t,Select(LB.g(ex,st,'_fhpath'),op(ex,st,a[0]))); return r
def x_vinit(ex,st,fn,obj,a,e):
    r=ret(ex,st,fn); c=op(ex,st,a[0]); st.ghost['_ctxset']=z3.Store(LB.g(ex,st,'_ctxset'),c,r.t==1); st.ghost['_ctxkey']=z3.Store(LB.g(ex,st,'_ctxkey'),c,Select(LB.g(ex,st,'_keyof'),op(ex,st,a[4]))); return r
def x_verify(ex,st,fn,obj,a,e):
    r=ret(ex,st,fn); c=op(ex,st,a[0]); s_=LB.S(ex,st,a[1]); sl=LB.In(ex,st,a[2]); d=LB.S(ex,st,a[3]); dl=LB.In(ex,st,a[4]); k=z3.Int('k!vf'); h=ex.sg
    good=And(r.t==1,Select(LB.g(ex,st,'_ctxset'),c),Select(LB.g(ex,st,'_ctxkey'),c)==h['key'],dl==64,fa([k],Implies(z3.And(0<=k,k<64),strat(d,k)%256==SHA(h['path'],k)),strat(d,k)),
      2*sl==slen(h['sig']),fa([k],Implies(z3.And(0<=k,k<sl),strat(s_,k)%256==ST16(lib.ssub(h['sig'],2*k,z3.IntVal(2)))%256),strat(s_,k)))
    ex.oblige(st,Implies(r.t==1,good),'what the crypto library accepts is the signature over the hash of the file, with the key of the collection','effect')
    st.ghost['sg_lib']=Or(LB.g(ex,st,'sg_lib'),good); return r
EXT2={'fopen':x_fopen,'PEM_read_PUBKEY':x_pubkey,'EVP_DigestVerifyInit':x_vinit,'EVP_DigestVerify':x_verify}
lib.GS['sg_lib']=B; lib.GS['sg_ok']=z3.ArraySort(Str,B); lib.GS['sg_bad']=B
def ent_(m,n,f): return fld(z3.Select(mval(m,MT),n),CT,f)
def path(m,n): return cat(ent_(m,n,'m_dirName'),cat(lit('/'),ent_(m,n,'m_fileName')))
def known(m,n): return z3.Select(mdom(m,MT),n)
def ssetup(ex,st,this,args):
    sorts(); m=ex.read(st,this.f('cards::pkgrepo::'+MP,MT)).t; n=ex.load(st,args[0]).t; s=ent_(m,n,'m_signature'); ex.sg=dict(path=path(m,n),key=cat(ent_(m,n,'m_dirName'),lit('/.PKEY')),sig=s); st.ghost['sg_lib']=FALSE; st.assume(slen(s)>=0)
def shint(ex,st,h,mods):
    out=[]; k=z3.Int('k!sv')
    for l in mods:
        y=get(h,l)
        if l[0]!='l' or not isinstance(y,T) or y.ty is None or spec.strip_ref(y.ty)!=VB: continue
        for c in mods:
            z=get(h,c)
            if c[0]=='l' and not c[2] and isinstance(z,T) and z.t.sort()==I:
                for r,v in h.store.items():
                    for p,x in loops.leaves(v):
                        if not p and isinstance(x,T) and x.t.sort()==Str: out.append(('decoded so far from %s'%str(r),lambda v,m,l=l,c=c,x=x: And(v[c]>=0,v[c]%2==0,vlen(v[l],VB)==slen(x.t)/2,fa([k],Implies(z3.And(0<=k,2*k<v[c]),z3.Select(varr(v[l],VB),k)%256==ST16(lib.ssub(x.t,2*k,z3.IntVal(2)))%256),z3.Select(varr(v[l],VB),k)))))
    return out
CS_='cards::pkgrepo::checkSign(cref(str))'
ALLEXC=('rec:std::runtime_error','rec:RunTimeErrorWithErrno','rec:std::invalid_argument')
def spost(c):
    m=c.o(MP).t; n=c.a(0).t
    return [('the index stays',Implies(known(m,n),Eq(c.n(MP).t,m)))]
root(P,Con(CS_,pre=lambda c:[('the package is in the index',known(c.o(MP).t,c.a(0).t))],mods=(MP,'m_packageFileNameHash','m_actualError','g:_inerr','g:sg_lib'),throws=ALLEXC,
  post=lambda c: spost(c)+[('success is reported only when the crypto library says so',Implies(c.ret.t,c.gn('sg_lib')))],setup=ssetup,opts={'ext':EXT2,'hints':shint}))
# ---------------------------------------------------------------- what uses it
from contracts.text import low
def light(sig,**k): return over(P,Con(sig,throws=k.pop('throws',RT),**k))
def loaded(c): o,n=c.o(MP).t,c.n(MP).t; return [('a loaded index stays',Implies(Not(Eq(mdom(o,MT),emptyset(Str))),Eq(n,o)))]
light('cards::pkgrepo::parse()',mods=(MP,),post=loaded,opts={'noauto':('',)})
def cieq(a,b): k=z3.Int('k!ci'); return And(slen(a)==slen(b),fa([k],Implies(z3.And(0<=k,k<slen(a)),low(strat(a,k))==low(strat(b,k))),strat(a,k),strat(b,k)))
def ext_of(t):
    """two texts that differ differ in length or in a character (an instance of extensionality for each comparison made)"""
    out=[]; seen=set(); todo=[t]
    while todo:
        x=todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo+=x.children()
        if z3.is_eq(x) and x.arg(0).sort()==Str: a,b=x.arg(0),x.arg(1); d=fresh('differs',I); out.append(Or(x,slen(a)!=slen(b),And(0<=d,d<slen(a),strat(a,d)!=strat(b,d))))
    return And(*out) if out else TRUE
def chpost(c):
    m=c.n(MP).t; n=c.a(0).t; ci=cieq(c.o('m_packageFileNameHash').t,fld(z3.Select(mval(m,MT),n),'rec:cards::cache','m_hash'))
    return [('the index stays',Implies(known(c.o(MP).t,n),Eq(m,c.o(MP).t))),('equal up to letter case only',Implies(c.ret.t,ci)),('equal whenever equal up to letter case',Implies(ext_of(c.ret.t),Implies(ci,c.ret.t)))]
root(P,light('cards::pkgrepo::checkHash(cref(str))',mods=(MP,),post=chpost,setup=lambda ex,st,this,args: sorts()))
OK='sg_ok'
def gok(c,s): return c.ex.g(c.sn if s=='n' else c.so,OK,lib.GS[OK])
light('cards::dwl::dwl(str,str,str)',mods=('this',),trusted='downloads one file',opts={})
DL='cards::pkgrepo::downloadPackageFileName(cref(str))'
light(DL,mods=(MP,'g:'+OK),pre=lambda c:[('the package is in the index',known(c.o(MP).t,c.a(0).t))],post=lambda c:[('the index stays',Eq(c.n(MP).t,c.o(MP).t))],ghost={'g:'+OK:lambda c: z3.Store(c.go(OK),path(c.o(MP).t,c.a(0).t),FALSE)},trusted='downloads a file: whatever was verified before is no longer there (that the index stays is proved separately)')
root(P,Con(DL,mods=(MP,'g:effects'),throws=RT,pre=lambda c:[('the package is in the index',known(c.o(MP).t,c.a(0).t))],post=lambda c:[('the index stays',Eq(c.n(MP).t,c.o(MP).t))],setup=lambda ex,st,this,args: sorts()))
light(CS_,pre=lambda c:[('the package is in the index',known(c.o(MP).t,c.a(0).t))],mods=(MP,'m_packageFileNameHash','m_actualError','g:_inerr','g:'+OK,'g:sg_bad'),throws=ALLEXC,post=spost,
  ghost={'g:'+OK:lambda c: z3.Store(c.go(OK),path(c.o(MP).t,c.a(0).t),c.ret.t),'g:sg_bad':lambda c: Or(c.go('sg_bad'),Not(c.ret.t))},trusted='verifies the signature over the hash of the file (proved separately)')
GP='cards::pkgrepo::getPackageDependencies(cref(str))'
def grown(c):
    o,n=c.o(RP),c.n(RP); x,=qs('n'); return [('packages whose dependencies are known stay known',fa([x],Implies(z3.Select(mdom(o.t,o.ty),x),z3.Select(mdom(n.t,n.ty),x)),z3.Select(mdom(n.t,n.ty),x)))]
root(P,light(GP,mods=(RP,'m_dbh','g:_inerr'),post=grown,setup=lambda ex,st,this,args: sorts(),opts={'noauto':('',)}))
light('archive::listofDependenciesBuildDate()',mods=('m_actualError','m_rtDependenciesEpochList'),opts={'noauto':('',)})
light('pkgdbh::checkPackageNameUptodate(ref(rec:archive))',mods=(),trusted='what is already installed does not matter here (C15)')
light('pkgdbh::checkPackageNameBuildDateSame(cref(std::pair(str,i64)))',mods=(),trusted='what is already installed does not matter here (C15)')
PT='std::pair(str,i64)'; VT='std::vector(%s)'%PT
def acc(rp,m,ok,n): return Or(z3.Select(mdom(rp.t,rp.ty),n),And(known(m,n),z3.Select(ok,path(m,n))))
def gsetup(ex,st,this,args):
    sorts(); st.ghost[OK]=emptyset(Str); st.ghost['sg_bad']=FALSE
    ex.gd=dict(mp=this.f('cards::pkgrepo::'+MP,MT),rp=this.f('cards::pkgrepo::'+RP,'std::map(str,rec:cards::db)'),dl=this.f('cards::pkgrepo::m_dependenciesList',VT))
    cfg=ex.read(st,this.f('cards::pkgrepo::m_config','rec:cards::conf').f('cards::conf::m_url','str')).t; ex.gd['url']=slen(cfg)>0; ex.gd['old']=ex.read(st,ex.gd['dl']).t; st.assume(slen(cfg)>=0)
def vacc(ex,S,v,lo):
    k=z3.Int('k!ga'); rp=ex.read(S,ex.gd['rp']); m=ex.read(S,ex.gd['mp']).t; ok=ex.g(S,OK,lib.GS[OK]); e=z3.Select(varr(v,VT),k)
    return fa([k],Implies(And(ex.gd['url'],lo<=k,k<vlen(v,VT)),acc(rp,m,ok,pfst(e,PT))),e)
def gcalls(ex,st,con,c):
    if con.sig.startswith('cards::pkgrepo::getPackageDependencies('): ex.oblige(st,Implies(ex.gd['url'],z3.Select(ex.g(st,OK,lib.GS[OK]),c.a(0).t)),'an archive is only read once its signature is verified','effect')
def gpost(c):
    ex=c.ex; o=ex.gd['old']; v=c.n('m_dependenciesList').t; k=z3.Int('k!ga')
    return [('what was selected stays',And(vlen(v,VT)>=vlen(o,VT),fa([k],Implies(And(0<=k,k<vlen(o,VT)),z3.Select(varr(v,VT),k)==z3.Select(varr(o,VT),k)),z3.Select(varr(v,VT),k)))),
      ('each package selected was verified, or its dependencies were known',vacc(ex,c.sn,v,vlen(o,VT))),('a failed verification is an error',Not(c.gn('sg_bad')))]
def ghint(ex,st,h,mods):
    out=[]; k=z3.Int('k!ga'); o=ex.gd['old']; 
    def view(v):
        S=h.cp()
        for l,t in v.items():
            if l[0]=='g': S.ghost[l[1]]=t
            else:
                x=get(S,l); 
                if isinstance(x,T): loops.put(S,l,T(t,x.ty))
        return S
    V=[l for l in mods if l[0]=='l' and isinstance(get(h,l),T) and get(h,l).ty and spec.strip_ref(get(h,l).ty)==VT]
    if ('g','sg_bad') in mods: out.append(('no verification has failed',lambda v,m: Not(v[('g','sg_bad')])))
    for l in V:
        mine=str(l[2][-1][-1]).endswith('m_dependenciesList') if l[2] else False
        if mine: out.append(('what was selected stays',lambda v,m,l=l: And(vlen(v[l],VT)>=vlen(o,VT),fa([k],Implies(And(0<=k,k<vlen(o,VT)),z3.Select(varr(v[l],VT),k)==z3.Select(varr(o,VT),k)),z3.Select(varr(v[l],VT),k)))))
        out.append(('each was verified, or its dependencies were known',lambda v,m,l=l,mine=mine: vacc(ex,view(v),v[l],vlen(o,VT) if mine else z3.IntVal(0))))
    return out
GD='cards::pkgrepo::generateDependencies()'
root(P,light(GD,mods=('m_dependenciesList',MP,RP,'m_dbh','m_packageFileNameHash','m_packageDirName','m_packageFileName','m_actualError','g:_inerr','g:'+OK,'g:sg_bad'),post=gpost,
  xpost=lambda c:[('nothing is selected when an error is raised',Eq(c.n('m_dependenciesList').t,c.o('m_dependenciesList').t))],throws=('rec:std::exception',),setup=gsetup,opts={'calls':gcalls,'noauto':('',),'hints':ghint,'hint_ms':2000}))

NOTES[P]=['OpenSSL: EVP_DigestInit/Update/Final compute SHA-512 of the bytes given in order; PEM_read_PUBKEY reads the key of the file opened; EVP_DigestVerify returns 1 only for a signature of exactly the bytes given under the key given',
  'the key file and the archive do not change between verification and reading (nobody else writes them, section 2)','a package already known in m_listOfRepoPackages was read from a verified archive of the same run','the download itself (cards::dwl) is not looked at: whatever it leaves on disk is what is verified',
  'an archive names the package it is: a package whose archive carries the name of another makes the dependencies of that other one known']
