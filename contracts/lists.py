"""Line lists read from files (C09, C13, C14)."""
from contracts.base import *
from loops import get
VS=lib.VS
def flines(g,path): return terms.sel(g('fs_lines'),path)
def line(v,k): return z3.Select(varr(v,VS),k)
def among(v,n,x,lo=0): k=z3.Int('k!am'); return z3.Exists([k],z3.And(lo<=k,k<n,x==line(v,k)))
def pf_hint(ex,st,h,mods):
    out=[]; L=terms.sel(ex.lib.g(ex,st,'fs_lines'),ex.rfp); n=vlen(L,VS); x=z3.Const('x!pf',Str)
    for l in mods:
        if l[0]!='l' or not l[2] or l[2][-1]!=('s','pos'): continue
        out.append(('within the file',lambda v,m,l=l: z3.And(v[l]>=0,v[l]<=n,n>=0)))
        for r in mods:
            y=get(h,r)
            if r==l or not isinstance(y,T) or not y.ty: continue
            y0=get(st,r).t
            fl=next((e for e in mods if e[0]=='l' and e[1]==l[1] and e[2] and e[2][-1][1]=='fail'),None)
            if fl and kind(spec.strip_ref(y.ty))=='set': out.append(('the lines read before the one at hand',lambda v,m,l=l,r=r,y0=y0,fl=fl: z3.ForAll([x],z3.Select(v[r],x)==z3.Or(z3.Select(y0,x),among(L,v[l]-z3.If(v[fl],0,1),x)))))
            if fl and y.ty=='str': out.append(('the line at hand',lambda v,m,l=l,r=r,fl=fl: z3.Implies(z3.Not(v[fl]),z3.And(v[l]>=1,v[r]==line(L,v[l]-1)))))
            if kind(spec.strip_ref(y.ty))=='set': out.append(('the lines read so far',lambda v,m,l=l,r=r,y0=y0: z3.ForAll([x],z3.Select(v[r],x)==z3.Or(z3.Select(y0,x),among(L,v[l],x)))))
            elif spec.strip_ref(y.ty)==VS:
                k=z3.Int('k!pf'); n0=vlen(y0,VS)
                out.append(('one entry per line read',lambda v,m,l=l,r=r: vlen(v[r],VS)==n0+v[l]))
                out.append(('old entries stay',lambda v,m,l=l,r=r,y0=y0: fa([k],z3.Implies(z3.And(0<=k,k<n0),line(v[r],k)==line(y0,k)),line(v[r],k))))
                out.append(('the lines read so far, in order',lambda v,m,l=l,r=r: fa([k],z3.Implies(z3.And(n0<=k,k<n0+v[l]),line(v[r],k)==line(L,k-n0)),line(v[r],k))))
        for e in mods:
            if e[0]=='l' and e[1]==l[1] and e[2][-1][1] in('eof','fail'): out.append(('%s only at the end'%e[2][-1][1],lambda v,m,l=l,e=e: z3.Implies(v[e],v[l]==n)))
    return out
def pf_setup(ex,st,this,args): 
    ex.rfp=ex.lib.S(ex,st,args[1])
    st.assume(vlen(terms.sel(ex.lib.g(ex,st,'fs_lines'),ex.rfp),VS)>=0)
def pf_post(c):
    x=z3.Const('x!pf',Str); k=z3.Int('k!pf'); L=flines(c.go,c.a(1).t); n=vlen(L,VS)
    return [('every line of the file is added',Implies(c.ret.t==0,fa([k],Implies(z3.And(0<=k,k<n),z3.Select(c.an(0).t,line(L,k))),line(L,k)))),('a status',z3.Or(c.ret.t==0,c.ret.t==-1)),('failing to open the file is an input error',c.gn('_inerr')==z3.Or(c.go('_inerr'),c.ret.t==-1)),('nothing is added when the file cannot be opened',Implies(c.ret.t==-1,Eq(c.an(0).t,c.a(0).t))),
        ('every line of the file is added, and nothing else',Implies(c.ret.t==0,z3.ForAll([x],z3.Select(c.an(0).t,x)==z3.Or(z3.Select(c.a(0).t,x),among(L,n,x)))))]
def pfv_post(c):
    k=z3.Int('k!pf'); L=flines(c.go,c.a(1).t); n=vlen(L,VS); o,w=c.a(0).t,c.an(0).t; n0=vlen(o,VS)
    return [('a status',z3.Or(c.ret.t==0,c.ret.t==-1)),('failing to open the file is an input error',c.gn('_inerr')==z3.Or(c.go('_inerr'),c.ret.t==-1)),('nothing is added when the file cannot be opened',Implies(c.ret.t==-1,Eq(w,o))),
        ('one entry per line',Implies(c.ret.t==0,vlen(w,VS)==n0+n)),('old entries stay',Implies(c.ret.t==0,fa([k],Implies(z3.And(0<=k,k<n0),line(w,k)==line(o,k)),line(w,k)))),
        ('the lines of the file, in order',Implies(c.ret.t==0,fa([k],Implies(z3.And(n0<=k,k<n0+n),line(w,k)==line(L,k-n0)),line(w,k))))]
add(Con('parseFile(ref(std::set(str)),ptr(char))',post=pf_post,mods=('arg0','g:_inerr'),throws=False,setup=pf_setup,opts={'hints':pf_hint}),'C09')
add(Con('parseFile(ref(std::vector(str)),ptr(char))',pre=lambda c:[('a list has a length',vlen(c.a(0).t,VS)>=0)],post=pfv_post,mods=('arg0','g:_inerr'),throws=False,setup=pf_setup,opts={'hints':pf_hint}),'C09')
