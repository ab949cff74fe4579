"""C22, C23: text rendering and text helpers."""
from contracts.base import *
# ---------------------------------------------------------------- C22
def msetup(ex,st,this,args):
    b=z3.BitVec('mode!bv',32); args[0]=T(z3.BV2Int(b),'u32',b); ex.mbv=b
def bit(b,k): return (b&z3.BitVecVal(k,32))!=0
def mpost(c):
    b=c.ex.mbv; L=lambda ch: z3.IntVal(ord(ch)); r=c.ret.t; f=b&z3.BitVecVal(0o170000,32)
    ty=L('?')
    for v,ch in((0o100000,'-'),(0o040000,'d'),(0o120000,'l'),(0o020000,'c'),(0o060000,'b'),(0o140000,'s'),(0o010000,'p')): ty=z3.If(f==v,L(ch),ty)
    out=[('ten characters',slen(r)==10),('file type',strat(r,z3.IntVal(0))==ty)]
    for i,(who,rd,wr,xx,sp,up,lo) in enumerate((('user',0o400,0o200,0o100,0o4000,'S','s'),('group',0o40,0o20,0o10,0o2000,'S','s'),('other',0o4,0o2,0o1,0o1000,'T','t'))):
        out+=[(who+' read',strat(r,z3.IntVal(1+3*i))==z3.If(bit(b,rd),L('r'),L('-'))),(who+' write',strat(r,z3.IntVal(2+3*i))==z3.If(bit(b,wr),L('w'),L('-'))),
              (who+' execute',strat(r,z3.IntVal(3+3*i))==z3.If(bit(b,sp),z3.If(bit(b,xx),L(lo),L(up)),z3.If(bit(b,xx),L('x'),L('-'))))]
    return out
add(Con('mtos(u32)',setup=msetup,post=mpost,mods=(),throws=False),'C22')
# ---------------------------------------------------------------- C23
from loops import get
VS=lib.VS
sp=lambda x: z3.Or(x==32,z3.And(x>=9,x<=13))
lead=z3.Function('slead',Str,I); tend=z3.Function('stend',Str,I)
def wsax():
    s,=qs('s'); k=z3.Int('k!ws'); a,b=lead(s),tend(s)
    solve.EXTRA_AX.append((('slead',),[z3.ForAll([s],z3.And(0<=a,a<=slen(s),Implies(a<slen(s),Not(sp(strat(s,a))))),patterns=[a]),
       z3.ForAll([s,k],Implies(z3.And(0<=k,k<a),sp(strat(s,k))),patterns=[z3.MultiPattern(a,strat(s,k))])]))
    solve.EXTRA_AX.append((('stend',),[z3.ForAll([s],z3.And(0<=b,b<=slen(s),Implies(b>0,Not(sp(strat(s,b-1))))),patterns=[b]),
       z3.ForAll([s,k],Implies(z3.And(b<=k,k<slen(s)),sp(strat(s,k))),patterns=[z3.MultiPattern(b,strat(s,k))])]))
wsax()
def stripped(s): return z3.If(lead(s)<slen(s),lib.ssub(s,lead(s),tend(s)-lead(s)),lit(''))
def curs(h,mods):
    """loop counters, as a function of a state: number of characters passed"""
    out=[]
    for l in mods:
        x=get(h,l)
        if isinstance(x,It) and x.kind=='idx' or isinstance(x,T) and x.t.sort()==I and x.ty!='bool': out.append(l)
    return out
def strs(h,mods): return [l for l in mods if isinstance(get(h,l),T) and get(h,l).t.sort()==Str]
def vecs(h,mods): return [l for l in mods if isinstance(get(h,l),T) and get(h,l).ty and get(h,l).t.sort()==sort(VS)]
def strip_hint(ex,st,h,mods):
    out=[]; k=z3.Int('k!sh'); vs=[x for r,v in st.store.items() for p,x in __import__('loops').leaves(v) if isinstance(x,T) and x.t.sort()==Str and not p]
    for l in curs(h,mods):
        for x in {x.t.get_id():x.t for x in vs}.values():
            out.append(('only white space before',lambda v,m,l=l,x=x: And(v[l]>=0,v[l]<=slen(x),fa([k],Implies(z3.And(0<=k,k<v[l]),sp(strat(x,k))),strat(x,k)))))
            out.append(('only white space after, up to the end of the text',lambda v,m,l=l: fa([k],Implies(z3.And(v[l]+lead(ex.src)<k,k<slen(ex.src)),sp(strat(ex.src,k))),strat(ex.src,k))))
            out.append(('only white space from here on',lambda v,m,l=l,x=x: And(v[l]>=0,v[l]<=slen(x),v[l]>=lead(x),fa([k],Implies(z3.And(v[l]<=k,k<slen(x)),sp(strat(x,k))),strat(x,k)))))
            out.append(('only white space after',lambda v,m,l=l,x=x: And(v[l]>=-1,v[l]<slen(x),fa([k],Implies(z3.And(v[l]<k,k<slen(x)),sp(strat(x,k))),strat(x,k)))))
    return out
def small(ex,st,this,args):
    src(ex,st,this,args)
    for a in args:
        t=ex.load(st,a).t
        if t.sort()==Str: st.assume(slen(t)<2**31-1)
add(Con('stripWhiteSpace(cref(str))',post=lambda c:[('exactly the leading and trailing white space is removed',c.ret.t==stripped(c.a(0).t))],mods=(),throws=False,setup=small,opts={'hints':strip_hint}),'C23')
low=lambda x: z3.If(z3.And(x>=65,x<=90),x+32,x); upp=lambda x: z3.If(z3.And(x>=97,x<=122),x-32,x)
def mapped(r,s,n,f): k=z3.Int('k!mp'); return And(slen(r)==n,fa([k],Implies(z3.And(0<=k,k<n),strat(r,k)==f(strat(s,k))),strat(r,k),strat(s,k)))
def case(f):
    def hint(ex,st,h,mods):
        s=ex.src
        return [('converted so far',lambda v,m,l=l,r=r: And(v[l]>=0,v[l]<=slen(s),mapped(v[r],s,v[l],f))) for l in curs(h,mods) for r in strs(h,mods)]
    return hint
def src(ex,st,this,args): ex.src=ex.load(st,args[0]).t
for n,f in (('convertToLowerCase',low),('convertToUpperCase',upp)):
    add(Con(n+'(cref(str))',post=lambda c,f=f:[('every character mapped, the length kept',mapped(c.ret.t,c.a(0).t,slen(c.a(0).t),f))],mods=(),throws=False,setup=src,opts={'hints':case(f)}),'C23')
def pfx(a,b,n): k=z3.Int('k!px'); return fa([k],Implies(z3.And(0<=k,k<n),upp(strat(a,k))==upp(strat(b,k))),strat(a,k),strat(b,k))
def sw_hint(ex,st,h,mods):
    a,b=ex.sw; out=[]; cs=curs(h,mods)
    for l in cs: out.append(('equal so far',lambda v,m,l=l: And(v[l]>=0,v[l]<=slen(a),v[l]<=slen(b),pfx(a,b,v[l]))))
    for i,l in enumerate(cs):
        for l2 in cs[i+1:]: out.append(('both in step',lambda v,m,l=l,l2=l2: v[l]==v[l2]))
    return out
def sw_setup(ex,st,this,args): ex.sw=[ex.load(st,a).t for a in args]
add(Con('startsWithNoCase(cref(str),cref(str))',post=lambda c:[('exactly for prefixes up to case',c.ret.t==And(slen(c.a(1).t)<=slen(c.a(0).t),pfx(c.a(0).t,c.a(1).t,slen(c.a(1).t))))],mods=(),throws=False,setup=sw_setup,opts={'hints':sw_hint}),'C23')
Z=z3.IntVal(0)
def at(c): return core.sfindc(c.a(0).t,c.a(1).t,Z)
def after(c): s=c.a(0).t; p=at(c); return z3.If(And(p!=lib.NPOS,p+1<slen(s)),lib.ssub(s,p+1,slen(s)),lit(''))
def before(c,p): s=c.a(0).t; return z3.If(p!=lib.NPOS,lib.ssub(s,Z,p),s)
for n in ('getValue','getFirstValueOfKeyAfterDelim'): add(Con(n+'(cref(str),char)',post=lambda c:[('the part after the first delimiter, or nothing',c.ret.t==after(c))],mods=(),throws=False,setup=small),'C23')
add(Con('getValueBefore(cref(str),char)',post=lambda c:[('the part before the first delimiter, or everything',c.ret.t==before(c,at(c)))],mods=(),throws=False),'C23')
add(Con('getValueBeforeLast(cref(str),char)',post=lambda c:[('the part before the last delimiter, or everything',c.ret.t==before(c,core.srfindc(c.a(0).t,c.a(1).t)))],mods=(),throws=False),'C23')
# splitting: the runs of characters other than d among the first n characters of s, and the run that is still open
curr=z3.Function('openrun',Str,I,I,Str); _r={}
def runs():
    if 'f' not in _r:
        vs=sort(VS); _r['f']=f=z3.Function('closedruns',Str,I,I,vs); s,=qs('s'); d,n,m=z3.Ints('d!rn n!rn m!rn'); e=lib.vempty()
        solve.EXTRA_AX.append((('openrun',),[z3.ForAll([s,d],curr(s,d,Z)==lit(''),patterns=[curr(s,d,Z)]),
          z3.ForAll([s,d,n,m],Implies(z3.And(n>=0,m==n+1),curr(s,d,m)==z3.If(strat(s,n)==d,lit(''),scat(curr(s,d,n),core.schr(strat(s,n))))),patterns=[z3.MultiPattern(curr(s,d,m),curr(s,d,n))]),
          ])); solve.EXTRA_AX.append((('closedruns',),[
          z3.ForAll([s,d],f(s,d,Z)==e,patterns=[f(s,d,Z)]),
          z3.ForAll([s,d,n,m],Implies(z3.And(n>=0,m==n+1),f(s,d,m)==z3.If(z3.And(strat(s,n)==d,curr(s,d,n)!=lit('')),mkvec(vlen(f(s,d,n),VS)+1,z3.Store(varr(f(s,d,n),VS),vlen(f(s,d,n),VS),curr(s,d,n)),VS),f(s,d,n))),patterns=[z3.MultiPattern(f(s,d,m),f(s,d,n))])]))
    return _r['f']
def split(s,d):
    f=runs(); n=slen(s); v=f(s,d,n); c=curr(s,d,n); return z3.If(c!=lit(''),mkvec(vlen(v,VS)+1,z3.Store(varr(v,VS),vlen(v,VS),c),VS),v)
def split_hint(ex,st,h,mods):
    s,d=ex.sw; f=runs(); out=[]
    for l in curs(h,mods):
        out.append(('within the text',lambda v,m,l=l: And(v[l]>=0,v[l]<=slen(s))))
        for r in strs(h,mods): out.append(('the open run',lambda v,m,l=l,r=r: v[r]==curr(s,d,v[l])))
        for r in vecs(h,mods): out.append(('the closed runs',lambda v,m,l=l,r=r: v[r]==f(s,d,v[l])))
    return out
for n in('parseDelimitedVectorList','parseDelimitedListList'):
    add(Con(n+'(cref(str),cref(char))',post=lambda c:[('the maximal runs without the delimiter, in order',c.ret.t==split(c.a(0).t,c.a(1).t))],mods=(),throws=False,setup=sw_setup,opts={'hints':split_hint}),'C23')
def tok_hint(ex,st,h,mods):
    v0=lib.tokv(ex.sw[0],ex.sw[1]); out=[]; x,=qs('x'); k=z3.Int('k!tk')
    if ('g','_tokpos') not in mods: return out
    g=('g','_tokpos')
    for r in vecs(h,mods): out.append(('all tokens so far',lambda v,m,r=r: And(v[g]>=0,v[g]<=vlen(v0,VS)+1,vlen(v[r],VS)==v[g]-1,fa([k],Implies(z3.And(0<=k,k<v[g]-1),Select(varr(v[r],VS),k)==Select(varr(v0,VS),k)),Select(varr(v[r],VS),k)))))
    for l in mods:
        y=get(h,l)
        if isinstance(y,T) and y.t.sort()==z3.ArraySort(Str,B): out.append(('all tokens so far',lambda v,m,l=l: And(v[g]>=0,v[g]<=vlen(v0,VS)+1,fa([x],z3.Select(v[l],x)==z3.Exists([k],z3.And(0<=k,k<v[g]-1,x==Select(varr(v0,VS),k))),z3.Select(v[l],x)))))
        if isinstance(y,T) and y.t.sort()==Str: out.append(('the token at hand',lambda v,m,l=l: v[l]==z3.If(v[g]<=vlen(v0,VS),Select(varr(v0,VS),v[g]-1),NULLSTR)))
    return out
def tokvec(c):
    r=c.ret.t; v=lib.tokv(c.a(0).t,c.a(1).t); k=z3.Int('k!tv'); return [('as many as there are tokens',vlen(r,VS)==vlen(v,VS)),('the tokens, in order',fa([k],Implies(z3.And(0<=k,k<vlen(v,VS)),Select(varr(r,VS),k)==Select(varr(v,VS),k)),Select(varr(r,VS),k)))]
def tokset(c):
    x,=qs('x'); k=z3.Int('k!tv'); v=lib.tokv(c.a(0).t,c.a(1).t); return [('exactly the tokens',fa([x],z3.Select(c.ret.t,x)==z3.Exists([k],z3.And(0<=k,k<vlen(v,VS),x==Select(varr(v,VS),k))),z3.Select(c.ret.t,x)))]
def tok_setup(ex,st,this,args): sw_setup(ex,st,this,args); v=lib.tokv(*ex.sw); st.assume(vlen(v,VS)>=0,Implies(ex.sw[0]==lit(''),vlen(v,VS)==0))
add(Con('parseDelimitedVectorList(cref(str),ptr(char))',post=tokvec,mods=(),throws=False,setup=tok_setup,opts={'hints':tok_hint}),'C23')
add(Con('parseDelimitedSetList(cref(str),ptr(char))',post=tokset,mods=(),throws=False,setup=tok_setup,opts={'hints':tok_hint}),'C23')
# a cleaned path: eqv is the least equivalence that collapses a doubled slash
eqv=z3.Function('sameslash',Str,Str,B)
def eqax():
    a,b,c_,x,y=qs('a','b','c','x','y'); D=lambda q: scat(x,scat(lit(q),y))
    solve.EXTRA_AX.append((('sameslash',),[z3.ForAll([a],eqv(a,a),patterns=[eqv(a,a)]),
       z3.ForAll([a,x,y],Implies(eqv(a,D('//')),eqv(a,D('/'))),patterns=[eqv(a,D('/'))])]))
eqax()
def nodouble(r): k=z3.Int('k!nd'); return fa([k],Not(z3.And(0<=k,k+1<slen(r),strat(r,k)==47,strat(r,k+1)==47)),strat(r,k))
def trim_hint(ex,st,h,mods):
    out=[]; D=lit('//')
    for r in strs(h,mods):
        out.append(('only doubled slashes were collapsed',lambda v,m,r=r: eqv(ex.src,v[r])))
        for l in curs(h,mods): out.append(('the first doubled slash is at hand',lambda v,m,r=r,l=l: And(v[l]==core.sfind(v[r],D,Z),Implies(v[l]!=lib.NPOS,v[r]==scat(lib.ssub(v[r],Z,v[l]),scat(D,lib.ssub(v[r],v[l]+2,slen(v[r]))))))))
        def apart(v,m,r=r):
            t=v[r]; q=core.sfind(t,D,Z); return Implies(q!=lib.NPOS,And(t==scat(lib.ssub(t,Z,q),scat(D,lib.ssub(t,q+2,slen(t)))),lib.ssub(t,q+1,slen(t))==scat(lit('/'),lib.ssub(t,q+2,slen(t)))))
        out.append(('the first doubled slash and what is around it',apart))
    return out
add(Con('trimFileName(cref(str))',post=lambda c:[('free of doubled slashes',nodouble(c.ret.t)),('otherwise unchanged',eqv(c.a(0).t,c.ret.t))],mods=(),throws=False,setup=src,opts={'hints':trim_hint}),'C23')
LATE.append(runs)
