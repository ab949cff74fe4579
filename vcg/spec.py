"""Function contracts: what a function requires, may modify, ensures; how callers use it and how its body is verified."""
import z3, time, os
from core import *
import core
import ex as X
from ex import *
import lib, terms, solve, prog as progm

class Env:
    """old/new view handed to pre/post conditions"""
    def __init__(s,ex,old,new,this,args,ret=None): s.ex=ex; s.so=old; s.sn=new; s.thislv=this; s.args=args; s.ret=ret
    def _fld(s,st,name):
        o=s.ex.read(st,s.thislv)
        if isinstance(o,T): o=unpack(o.t,o.ty)
        ks=[k for k in o.f if k.split('::')[-1]==name]
        if not ks: raise Unsupported('no field '+name)
        v=o.f[ks[0]]
        if isinstance(v,LV): v=s.ex.read(st,v)
        return v
    def o(s,name): return s._fld(s.so,name)          # value before
    def n(s,name): return s._fld(s.sn,name)          # value after
    def _arg(s,st,i):
        a=s.args[i]
        v=s.ex.load(st,a)
        if isinstance(v,Ptr) and v.lv is not None: v=s.ex.read(st,v.lv)
        if isinstance(v,Pv): v=T(mkpair(pack(v.a),pack(s.ex.read(st,v.b)),v.ty),v.ty)
        return v
    def a(s,i): return s._arg(s.so,i)
    def an(s,i): return s._arg(s.sn,i)
    def go(s,n): return s.ex.g(s.so,n,lib.gsort(n))
    def gn(s,n): return s.ex.g(s.sn,n,lib.gsort(n))
    def of(s,v,name):
        """field of an object value"""
        if isinstance(v,T): v=unpack(v.t,v.ty)
        ks=[k for k in v.f if k.split('::')[-1]==name]
        return v.f[ks[0]]

class Con:
    """contract of one function. post/pre: Env -> formula or list of (name, formula)"""
    def __init__(s,sig,files=(),pre=None,post=None,mods=(),throws=None,xpost=None,xmods=None,trusted=None,noreturn=False,opts=None,uses=(),dyn=None,pure=False,ret=None,bounded=None,note=None,setup=None,sets=None,ghost=None):
        s.sets=dict(sets or {}); s.ghost=dict(ghost or {})   # ghost: specification-only variables assigned at the function's normal exit
        s.sets.update(s.ghost); mods=tuple(mods)+tuple(k for k in s.sets if k not in mods)
        s.sig=sig; s.name=sig; s.files=files; s.pre=pre; s.post=post; s.mods=tuple(mods); s.throws=throws; s.xpost=xpost
        s.xmods=mods if xmods is None else tuple(xmods); s.trusted=trusted; s.noreturn=noreturn; s.opts=opts or {}; s.uses=uses; s.dyn=dyn; s.ret=ret; s.note=note; s.setup=setup
    def havoc(s,ex,st,mods,this,args):
        for m in mods:
            if m.startswith('g:'):
                n=m[2:]; st.ghost[n]=fresh('c_'+n,lib.gsort(n))
            elif m=='this':
                v=ex.read(st,this); cls=s.sig.split('(')[0].rsplit('::',1)[0]
                if cls in RECORDS and v.ty!='rec:'+cls:
                    # the fields of a class derived from the method's are out of its reach
                    own={k for k,_ in rec_fields(cls)}; o=v if isinstance(v,Obj) else unpack(v.t,v.ty)
                    if own<=set(o.f):
                        ex.write(st,this,Obj(v.ty,{k:(s.fr(ex,st,x,'this') if k in own and not isinstance(x,LV) else x) for k,x in o.f.items()})); continue
                ex.write(st,this,ex.frv(st,'c_this',v.ty))
            elif m.startswith('arg'):
                a=args[int(m[3:])]
                if isinstance(a,Ptr): a=a.lv
                if isinstance(a,LV):
                    v=ex.read(st,a); ex.write(st,a,s.fr(ex,st,v,m))
            else:
                o=ex.read(st,this); ks=[k for k in (o.f if isinstance(o,Obj) else unpack(o.t,o.ty).f) if k.split('::')[-1]==m]
                if not ks: raise Unsupported('contract of %s: no field %s'%(s.sig,m))
                fv=(o.f if isinstance(o,Obj) else unpack(o.t,o.ty).f)[ks[0]]
                if isinstance(fv,LV):
                    v=ex.read(st,fv); ex.write(st,fv,s.fr(ex,st,v,m))
                else: ex.write(st,LV(this.root,this.path+(('f',ks[0]),),fv.ty if not isinstance(fv,Stream) else None),s.fr(ex,st,fv,m))
    def fr(s,ex,st,v,m):
        if isinstance(v,Stream): return v
        if isinstance(v,Ptr): return v
        return ex.frv(st,'c_'+m,v.ty)
    def flist(s,r):
        if r is None: return []
        if isinstance(r,(list,tuple)): return [(n,f) for n,f in r]
        return [('postcondition',r)]
    def apply(s,ex,st,fn,obj,args,e):
        for i,a in enumerate(args):
            if not isinstance(a,(LV,Ptr,Clo,tuple)) and ptype(fn['params'][i] if i<len(fn.get('params',[])) else 'x')[0] in('ref','cref'):
                pass
        old=st.cp()
        if s.pre is not None:
            for n,f in s.flist(s.pre(Env(ex,old,old,obj,args))): ex.oblige(st,f,'precondition of %s: %s'%(s.sig,n),'pre',e.get('l',0) if isinstance(e,dict) else 0)
        out=[]; h=ex.opts.get('calls')
        if h: h(ex,st,s,Env(ex,old,old,obj,args))
        if s.throws is not None and s.throws is not False:
            b=st.cp(); s.havoc(ex,b,s.xmods,obj,args)
            b.assume(fresh('throws',B))
            if s.xpost is not None:
                for n,f in s.flist(s.xpost(Env(ex,old,b,obj,args))): b.assume(f)
            ex.thr[-1].append((b,Exc(s.throws if isinstance(s.throws,str) else '?')))
        if s.noreturn: return []
        s.havoc(ex,st,[m for m in s.mods if m not in s.sets],obj,args)
        for m,f in s.sets.items():
            if m in s.ghost: continue
            t=f(Env(ex,old,st,obj,args))
            if m.startswith('g:'): st.ghost[m[2:]]=t
            else:
                o=ex.read(st,obj); fs=(o.f if isinstance(o,Obj) else unpack(o.t,o.ty).f); ks=[k for k in fs if k.split('::')[-1]==m]; fv=fs[ks[0]]
                if isinstance(fv,LV): ex.write(st,fv,T(t,ex.read(st,fv).ty))
                else: ex.write(st,LV(obj.root,obj.path+(('f',ks[0]),),fv.ty),T(t,fv.ty))
        ret=VOID
        rt=fn.get('ret','void')
        if rt!='void':
            if ptype(rt)[0] in('ref','cref') and s.ret is None: raise Unsupported('contract returning a reference: '+s.sig)
            ret=s.ret(Env(ex,old,st,obj,args)) if s.ret is not None else ex.frv(st,'ret_'+fn['name'].split('::')[-1],strip_ref(rt))
        for m,f in s.ghost.items(): st.ghost[m[2:]]=f(Env(ex,old,st,obj,args,ret))
        if s.post is not None:
            for n,f in s.flist(s.post(Env(ex,old,st,obj,args,ret))): st.assume(f)
        return [(st,ret)]

class Result:
    def __init__(s,sig): s.sig=sig; s.obls=[]; s.error=None; s.seconds=0; s.inlined=set(); s.used=set(); s.assumptions=set(); s.vacuous=False

def verify(prog,con,contracts,quick=False,verbose=False,only=None,discharge=True):
    """generate and discharge every obligation of con's function; returns Result"""
    R=Result(con.sig); t0=time.time()
    f=prog.find(con.sig)
    if f is None: R.error='function %s not found in the sources'%con.sig; return R
    cs=dict(contracts); cs[con.sig]=con   # a recursive call is checked against the contract being verified
    ex=Ex(prog,lib.LIB,cs,con.opts)
    st=St()
    try:
        this=None
        if f.get('cls') and not f.get('static'):
            cls=con.dyn or f['cls']
            ty='rec:'+cls; this=LV(('h','this',0),(),ty)
            o=ex.frv(st,'this',ty); st.store[this.root]=o
            if con.dyn: ex.dyn[this.root]=con.dyn
            if f.get('ctor'): st.store[this.root]=ex.blank(st,ty)
        args=[]
        for p in f['ps']:
            n,a=ptype(p['t']); t=strip_ref(p['t'])
            if n in('ref','cref'):
                r=('h','arg_'+p['n'],0); st.store[r]=ex.frv(st,'arg_'+p['n'],t); args.append(LV(r,(),t))
            elif n=='ptr' and a[0]!='char' and a[0]!='void' and not a[0].startswith('ptr'):
                if a[0].startswith('rec:') and a[0][4:] in RECORDS or kind(a[0]) in('int','bool'):
                    r=('h','arg_'+p['n'],0); st.store[r]=ex.frv(st,'arg_'+p['n'],a[0]); args.append(Ptr(LV(r,(),a[0]),p['t']))
                else: args.append(Raw(p['t']))
            else: args.append(ex.frv(st,'arg_'+p['n'],t))
        if con.setup: con.setup(ex,st,this,args)
        old=st.cp()
        if con.pre is not None:
            for n,fm in con.flist(con.pre(Env(ex,old,st,this,args))): st.assume(fm)
        old.ghost=dict(st.ghost); old.store=dict(st.store); old.pc=list(st.pc)
        npre=len(st.pc)
        ex.fnstack.append({'name':f['name'],'this':this,'f':f})
        if f.get('ctor'):
            ex.fnstack.pop()
            sts=ex.run_ctor(st,f,this,args,top=True); rets=[(a,None) for a in sts]
            ex.fnstack.append({'name':f['name'],'this':this,'f':f})
        else:
            ex.bind(st,f,args)
            o=ex.stmt(f['body'],st)
            rets=list(o.r)+[(a,None) for a in o.n]
        # normal exits
        for k,(a,v) in enumerate(rets):
            if a.dead(): continue
            if v is not None:
                v=ex.load(a,v) if ptype(f['ret'])[0] not in('ref','cref') or not isinstance(v,LV) else ex.read(a,v)
            env=Env(ex,old,a,this,args,v)
            if con.noreturn: ex.oblige(a,FALSE,'never returns normally','post'); continue
            for m,fm in con.ghost.items(): a.ghost[m[2:]]=fm(env)
            if con.post is not None:
                for n,fm in con.flist(con.post(env)): ex.oblige(a,fm,'ensures %s'%n,'post')
            for m,fm in con.sets.items():
                if m in con.ghost: continue
                g=Eq(env.gn(m[2:]) if m.startswith('g:') else env.n(m).t,fm(env)); ex.oblige(a,g,'ensures the exact new value of %s'%m,'post')
            frame(ex,con,con.mods,old,a,this,args,'normal exit')
            R.exits=getattr(R,'exits',[])+[a]
        if 'onexit' in con.opts:
            for a,code in ex.exits:
                if not a.dead():
                    for n,fm in con.flist(con.opts['onexit'](ex,a,code)): ex.oblige(a,fm,'when the process ends: %s'%n,'post')
        for a,x in ex.thr[-1]:
            if a.dead(): continue
            if con.throws is False: ex.oblige(a,FALSE,'does not raise','post'); continue
            env=Env(ex,old,a,this,args)
            if con.xpost is not None:
                for n,fm in con.flist(con.xpost(env)): ex.oblige(a,fm,'on error: %s'%n,'xpost')
            frame(ex,con,con.xmods,old,a,this,args,'error exit')
    except Unsupported as u:
        R.error='outside the verifier\'s reach: %s'%u
    R.gen=ex
    R.inlined=ex.inlined; R.used=ex.used_contracts; R.assumptions=ex.assumptions; R.loops=ex.loop_stats
    # discharge
    for ob in (ex.obls if discharge else ()):
        t1=time.time(); ok=solve.prove(ob.hyps,ob.goal,quick=False)
        R.obls.append((ob,ok,time.time()-t1))
        if verbose: print(('ok  ' if ok else 'FAIL'),ob.kind,ob.name,'%.2fs'%(time.time()-t1),flush=True)
    if not R.error and discharge:
        ex_=getattr(R,'exits',[])
        if ex_ and not any(solve.satisfiable(a.pc) for a in ex_): R.vacuous=True
    R.seconds=time.time()-t0
    return R

def flatten(ex,st,v,path,out):
    if isinstance(v,LV): return
    if isinstance(v,Obj):
        for k in v.f: flatten(ex,st,v.f[k],path+(k,),out)
    else: out[path]=v
def frame(ex,con,mods,old,new,this,args,where):
    goals=[]
    if this is not None and 'this' not in mods:
        a={}; b={}; flatten(ex,old,old.store[this.root],(),a); flatten(ex,new,new.store[this.root],(),b)
        for p in a:
            if any(seg.split('::')[-1] in mods for seg in p): continue
            if p not in b: continue
            x,y=a[p],b[p]
            if same(x,y) or not (isinstance(x,T) and isinstance(y,T)): continue
            goals.append(('%s unchanged (%s)'%('.'.join(s.split('::')[-1] for s in p),where),Eq(x.t,y.t)))
    gs=set(old.ghost)|set(new.ghost)
    for g in gs:
        if 'g:'+g in mods or g.startswith('_'): continue
        if g in('fdpath',): continue
        x=old.ghost.get(g); y=new.ghost.get(g)
        if x is None: x=ghost0(g,y.sort())
        if y is None: y=x
        if not x.eq(y): goals.append(('effects on %s unchanged (%s)'%(g,where),Eq(x,y)))
    for i,a in enumerate(args):
        if 'arg%d'%i in mods: continue
        lv=a.lv if isinstance(a,Ptr) else a
        if isinstance(lv,LV):
            u={}; w={}; flatten(ex,old,old.store[lv.root],(),u); flatten(ex,new,new.store[lv.root],(),w)
            for p in u:
                if p in w and isinstance(u[p],T) and isinstance(w[p],T) and not same(u[p],w[p]): goals.append(('argument %d unchanged (%s)'%(i,where),Eq(u[p].t,w[p].t)))
    for n,g in goals: ex.oblige(new,g,'frame: '+n,'frame')
