"""Contracts (assumed) of the C, POSIX, C++ standard library and libarchive operations the code under contract uses."""
import z3, re
from core import *
import core
import ex as X
from ex import *
import terms
from prog import strip_targs

rmatch=z3.Function('rmatch',Str,Str,B)            # extended regular expression (pattern) matches (subject)
isname=z3.Function('isname',Str,B)   # a directory entry name (no slash)
fbyte=z3.Function('fbyte',Str,I,I); flen=z3.Function('flen',Str,I); slink=z3.Function('slink',Str,Str)   # content of the file at a path; target of the link at a path
sdirname=z3.Function('sdirname',Str,Str); sbasename=z3.Function('sbasename',Str,Str)
VS='std::vector(str)'
setseq=None; vconcat=None
def seqfns():
    global setseq,vconcat
    if setseq is None:
        vs=sort(VS); ss=z3.ArraySort(Str,B)
        setseq=z3.Function('setseq',ss,vs); vconcat=z3.Function('vconcat',vs,vs,vs)
        x=z3.Const('x!q',vs); S=z3.Const('S!q',ss); c_=z3.Const('c!q',Str); y=z3.Const('y!q',Str)
        import solve
        e=mkvec(z3.IntVal(0),core_arr0(VS),VS)
        solve.EXTRA_AX.append((('vconcat',),[z3.ForAll([x],vconcat(e,x)==x,patterns=[vconcat(e,x)]),z3.ForAll([x],vconcat(x,e)==x,patterns=[vconcat(x,e)])]))
        solve.EXTRA_AX.append((('setseq',),[setseq(emptyset(Str))==e]))
        # sorted sequence of a set: appending an element above all others
        solve.EXTRA_AX.append((('setseq','slt'),[z3.ForAll([S,c_],z3.Implies(z3.ForAll([y],z3.Implies(z3.Select(S,y),slt(y,c_))),setseq(z3.Store(S,c_,TRUE))==vpush(setseq(S),c_)),patterns=[setseq(z3.Store(S,c_,TRUE))])]))
    return setseq,vconcat
_tv=[]
def tokv(t,d):
    """the tokens strtok finds in t with the delimiter set d"""
    if not _tv: _tv.append(z3.Function('tokv',Str,Str,sort(VS)))
    return _tv[0](t,d)
_wv=[]
def wordv(t):
    """the words of t: its maximal runs without white space"""
    if not _wv: _wv.append(z3.Function('wordv',Str,sort(VS)))
    return _wv[0](t)
def vempty(): return mkvec(z3.IntVal(0),core_arr0(VS),VS)
def vpush(v,x,ty=VS): return mkvec(z3.simplify(vlen(v,ty)+1),z3.Store(varr(v,ty),vlen(v,ty),x),ty)

GS={'fs_ex':z3.ArraySort(Str,B),'removed':z3.ArraySort(Str,B),'wrote':z3.ArraySort(Str,B),'fdpath':z3.ArraySort(I,Str),
    'locked':z3.ArraySort(Opq,B),'fs_dir':z3.ArraySort(Str,z3.ArraySort(Str,B)),'_dirseen':z3.ArraySort(Opq,z3.ArraySort(Str,B)),'_arpath':z3.ArraySort(Opq,Str),'_arpos':z3.ArraySort(Opq,I),'_entpath':z3.ArraySort(Opq,Str),'_arerr':B,'extracted':z3.ArraySort(Opq,B),'fs_synced':z3.ArraySort(Str,B),'execd':B,'_cwd':Str,'waited':B,'_inerr':B,'wst':I,'childpid':I}
dpath=z3.Function('dirpath',Opq,Str); dfd=z3.Function('dirfd',Opq,I)           # an open directory
arn=z3.Function('archive_entries',Str,I); arent=z3.Function('archive_entry',Str,I,Opq); epath=z3.Function('entry_path',Opq,Str); emode=z3.Function('entry_mode',Opq,I)
def mentions(t,c):
    seen=set(); todo=[t]
    while todo:
        x=todo.pop()
        if x.eq(c): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo+=x.children()
    return False
def push(c,f):
    return z3.If(c.arg(0),push(c.arg(1),f),push(c.arg(2),f)) if z3.is_app_of(c,z3.Z3_OP_ITE) else f(c)
def gsort(n):
    if n in GS: return GS[n]
    if n=='fs_lines': return z3.ArraySort(Str,sort(VS))
    raise Unsupported('ghost '+n)
class Manip(Raw):
    def __init__(s): Raw.__init__(s,'manip')
hex2=z3.Function('hex2',I,Str); stoi16=z3.Function('stoi16',Str,I)
class Lib:
    def g(s,ex,st,n): return ex.g(st,n,gsort(n))
    # ------------------------------------------------------------ small helpers
    def S(s,ex,st,v):
        v=ex.load(st,v)
        if isinstance(v,T) and v.t.sort()==Str: return v.t
        if isinstance(v,Ptr) and v.lv is not None:
            w=ex.read(st,v.lv)
            if isinstance(w,T) and w.t.sort()==Str: return w.t
        if isinstance(v,Ptr) and v.lv is None: return NULLSTR
        if isinstance(v,T) and v.t.sort()==I and v.ty=='char': return schr(v.t)
        raise Unsupported('string value expected, got %r'%v)
    def In(s,ex,st,v):
        v=ex.load(st,v)
        if isinstance(v,T):
            if v.t.sort()==I: return v.t
            if v.t.sort()==B: return coerce(v.t,I)
        raise Unsupported('integer expected, got %r'%v)
    def effect(s,ex,st,kind_,path,path2=None):
        hook=ex.opts.get('effect')
        if hook is not None: hook(ex,st,kind_,path,path2)
    # ------------------------------------------------------------ globals, opaque structures
    def global_ref(s,ex,st,e):
        n=e['qn']
        if n in('std::cout','std::cerr','std::clog'): return Stream('console',{'fail':mkbool(False)})
        if n in('stdin','stdout','stderr'): return Raw(e['t'])
        return None
    def default_rec(s,ex,st,ty): return Raw(ty)
    def opaque_member(s,ex,st,b,e):
        n=e['n']
        if n=='d_name':
            f=z3.Function('d_name',Opq,Str); t=b.t if not isinstance(b,Ptr) else pack(b)
            st.assume(f(t)!=lit(''),slen(f(t))>0,isname(f(t)))
            return T(f(t),'ptr(char)')
        srt=sort(e['t']); f=z3.Function('om_'+mangle(e.get('owner','?')+'_'+n),Opq,srt); r=T(f(b.t),e['t']); ex.assume_range(st,r); return r
    def subscript(s,ex,st,b,i,e):
        v=b
        if isinstance(b,LV): v=ex.read(st,b)
        it=i.t if isinstance(i,T) else None
        if it is not None and it.sort()==B: it=coerce(it,I)
        if isinstance(v,T) and v.t.sort()==Str:
            if isinstance(b,LV) and kind(strip_ref(v.ty))!='ptr' and (ptype(v.ty)[0]=='arr' or v.ty=='str'): return LV(b.root,b.path+(('ch',it),),'char')
            if isinstance(b,LV): return LV(b.root,b.path+(('ch',it),),'char')
            return T(strat(v.t,it),'char')
        if isinstance(v,T) and kind(v.ty)=='vec' and isinstance(b,LV): return LV(b.root,b.path+(('vi',it),),ptype(strip_ref(v.ty))[1][0])
        if isinstance(v,(Raw,T,Ptr)): return ex.frv(st,'elem',e['t'])
        raise Unsupported('subscript %r'%v)
    def init_list(s,ex,st,e,vs):
        ty=strip_ref(e['t']); k=kind(ty); n,a=ptype(ty)
        if k=='cstr':
            if len(vs)==1 and vs[0].t.sort()==Str: return T(vs[0].t,ty)
            if all(isinstance(v,T) and isint(v.t) and v.t.as_long()==0 for v in vs): return T(lit(''),ty)
            return T(fresh('buf',Str),ty)
        if k=='rec' and n[4:] in RECORDS:
            o=ex.blank(st,ty,True)
            for (fk,ft),v in zip(rec_fields(n[4:]),vs): o.f[fk]=v
            return o
        if 'initializer_list' in n or k in('vec','set') or n=='arr':
            return ('ilist',vs)
        if k=='pair': return T(mkpair(pack(vs[0]),pack(vs[1]),ty),ty)
        if not vs: return ex.default(st,ty,True)
        if len(vs)==1: return vs[0]
        return Raw(ty)
    # ------------------------------------------------------------ constructors
    def construct(s,ex,st,e,vals):
        ty=strip_ref(e['t']); n,a=ptype(ty); k=kind(ty); nm=strip_targs(e['fn']['name']).split('::')[-1]
        vals=[v for v in vals if not (isinstance(v,Raw) and 'allocator' in v.ty)]
        if k=='str':
            if not vals: return T(lit(''),'str')
            v0=ex.load(st,vals[0])
            if isinstance(v0,T) and v0.t.sort()==Str:
                t=v0.t
                if len(vals)==1:
                    if kind(strip_ref(v0.ty))=='cstr' or v0.ty!='str': pass
                    return T(t,'str')
                p=s.In(ex,st,vals[1])
                is_c=kind(strip_ref(v0.ty))=='cstr'
                if len(vals)==2:
                    if is_c: return T(ssub_(t,z3.IntVal(0),p),'str')
                    return T(ssub_(t,p,z3.IntVal(NPOS)),'str')
                return T(ssub_(t,p,s.In(ex,st,vals[2])),'str')
            if isinstance(v0,T) and v0.t.sort()==I and len(vals)==2:
                srep=z3.Function('srep',I,I,Str); return T(srep(v0.t,s.In(ex,st,vals[1])),'str')
            if isinstance(v0,tuple) and v0[0]=='ilist':
                r=lit('')
                for c in v0[1]: r=cat(r,schr_(c.t))
                return T(r,'str')
            if isinstance(v0,Raw): return T(fresh('str',Str),'str')
            if isinstance(v0,Ptr) and v0.lv is not None:
                return T(s.S(ex,st,v0),'str')
            raise Unsupported('string constructor %r'%vals)
        if k in('set','vec','map'):
            if not vals: return ex.default(st,ty)
            v0=ex.load(st,vals[0]) if not isinstance(vals[0],tuple) else vals[0]
            if isinstance(v0,T) and kind(v0.ty)==k and len(vals)==1: return T(v0.t,ty)
            if isinstance(v0,tuple) and v0[0]=='ilist':
                if k=='set':
                    t=emptyset(sort(a[0]))
                    for x in v0[1]: t=z3.Store(t,coerce(pack(x),sort(a[0])),TRUE)
                    return T(t,ty)
                if k=='vec':
                    t=core_arr0(ty)
                    for j,x in enumerate(v0[1]): t=z3.Store(t,z3.IntVal(j),coerce(pack(x),sort(a[0])))
                    return T(mkvec(z3.IntVal(len(v0[1])),t,ty),ty)
            if k=='vec' and isinstance(v0,T) and v0.t.sort()==I:
                el=pack(ex.default(st,a[0],True)) if len(vals)==1 else pack(ex.load(st,vals[1]))
                return T(mkvec(v0.t,z3.K(I,el),ty),ty)
            if isinstance(v0,It) and len(vals)==2:
                return s.range_insert(ex,st,ex.default(st,ty),ty,v0,ex.load(st,vals[1]))
            raise Unsupported('container constructor %r'%vals)
        if k=='pair':
            if not vals: return ex.default(st,ty)
            if len(vals)==1:
                v=ex.load(st,vals[0])
                if isinstance(v,Pv): return T(mkpair(pack(v.a),pack(ex.read(st,v.b)),ty),ty)
                if isinstance(v,T) and sort(v.ty)!=sort(ty): return T(mkpair(coerce(pfst(v.t,v.ty),sort(a[0])),coerce(psnd(v.t,v.ty),sort(a[1])),ty),ty)
                return T(v.t,ty)
            x,y=[pack(ex.load(st,v)) for v in vals]
            return T(mkpair(coerce(x,sort(a[0])),coerce(y,sort(a[1])),ty),ty)
        if k=='iter' and 'ostream_iterator' not in n:
            if len(vals)==1: 
                v=ex.load(st,vals[0])
                return v
            return Raw(ty)
        if n in('std::basic_ifstream','std::ifstream') or 'basic_ifstream' in n:
            if not vals: return s.instream(ex,st,None)
            return s.instream(ex,st,s.S(ex,st,vals[0]))
        if 'basic_ofstream' in n:
            if not vals: return Stream('out',{'fail':mkbool(True),'lines':T(vempty(),VS),'part':mkstr(''),'path':mkstr('')})
            p=s.S(ex,st,vals[0]); s.effect(ex,st,'open_w',p); st.ghost['wrote']=z3.Store(s.g(ex,st,'wrote'),p,TRUE)
            return Stream('out',{'fail':T(fresh('offail',B),'bool'),'lines':T(vempty(),VS),'part':mkstr(''),'path':T(p,'str')})
        if 'stdio_filebuf' in n:
            return Stream('filebuf',{'fd':T(s.In(ex,st,vals[0]),'i32'),'fail':mkbool(False)})
        if 'basic_istream' in n:
            v=ex.load(st,vals[0]); fb=ex.read(st,v.lv) if isinstance(v,Ptr) else v
            fd=fb.f['fd'].t; return s.instream(ex,st,Select(s.g(ex,st,'fdpath'),fd))
        if 'basic_ostream' in n and 'ostringstream' not in n:
            v=ex.load(st,vals[0]); fb=ex.read(st,v.lv) if isinstance(v,Ptr) else v
            fd=fb.f['fd'].t; p=Select(s.g(ex,st,'fdpath'),fd)
            return Stream('out',{'fail':T(fd<0,'bool'),'lines':T(vempty(),VS),'part':mkstr(''),'path':T(p,'str')})
        if 'ostringstream' in n or 'stringstream' in n: return Stream('oss',{'text':mkstr(''),'fail':mkbool(False),'hex':mkbool(False),'w':mkint(0),'fill':mkint(32)})
        if 'ostream_iterator' in n:
            lv=vals[0] if isinstance(vals[0],LV) else None
            if lv is None: return Stream('osit0',{'fail':mkbool(False)})
            return ('osit',lv,s.S(ex,st,vals[1]) if len(vals)>1 else lit(''))
        if k=='rec' and ('runtime_error' in n or 'exception' in n): return Raw(ty)
        return Raw(ty)
    def instream(s,ex,st,path):
        if path is None: return Stream('in',{'fail':mkbool(True),'eof':mkbool(False),'pos':mkint(0,'i64'),'cnt':mkint(0,'i64'),'path':mkstr(''),'bad':mkbool(False)})
        f=fresh('ifail',B); st.assume(vlen(Select(s.g(ex,st,'fs_lines'),path),VS)>=0)
        st.ghost['_inerr']=Or(s.g(ex,st,'_inerr'),f)
        return Stream('in',{'fail':T(f,'bool'),'eof':mkbool(False),'pos':mkint(0,'i64'),'cnt':mkint(0,'i64'),'path':T(path,'str'),'bad':mkbool(False)})
    # ------------------------------------------------------------ containers
    def cget(s,ex,st,obj):
        v=ex.load(st,obj) if isinstance(obj,LV) else obj
        if isinstance(v,Obj): v=T(pack(v),v.ty)
        return v
    def elem(s,ex,st,v,srt):
        v=ex.load(st,v)
        if isinstance(v,Pv): v=T(mkpair(pack(v.a),pack(ex.read(st,v.b)),v.ty),v.ty)
        return coerce(pack(v),srt)
    def range_insert(s,ex,st,c,cty,b,e_):
        """container built from an iterator range [b,e_)"""
        if not isinstance(e_.snap,str) : raise Unsupported('sub-range')
        if b.kind=='key' and kind(cty)=='set' and (is_f_emptyV(b)):
            C=ex.contset(st,b.clv,b.cty)
            if z3.is_K(c.t) and is_f(c.t.arg(0)): return T(C,cty)
            return T(setop(lambda x:Or(Select(c.t,x),Select(C,x)),C.sort(),'uni'),cty)
        raise Unsupported('range insert')
    def m_set(s,ex,st,op,obj,args,e,ty):
        el=ptype(ty)[1][0]; es=sort(el); c=s.cget(ex,st,obj)
        if op=='insert':
            if len(args)==2:
                v0=ex.load(st,args[0]); v1=ex.load(st,args[1])
                if isinstance(v0,It) and isinstance(v1,It):
                    ex.write(st,obj,s.range_insert(ex,st,c,ty,v0,v1)); return VOID
                x=s.elem(ex,st,args[1],es)
            else:
                if isinstance(args[0],tuple):
                    t=c.t
                    for v in args[0][1]: t=z3.Store(t,coerce(pack(v),es),TRUE)
                    ex.write(st,obj,T(t,ty)); return VOID
                x=s.elem(ex,st,args[0],es)
            ex.write(st,obj,T(z3.Store(c.t,x,TRUE),ty)); return VOID if len(args)==2 else s.inserted(ex,st,obj,ty,es,x,Select(c.t,x),e)
        if op=='emplace' and len(args)==1:
            x=s.elem(ex,st,args[0],es); ex.write(st,obj,T(z3.Store(c.t,x,TRUE),ty)); return s.inserted(ex,st,obj,ty,es,x,Select(c.t,x),e)
        if op=='erase':
            v=ex.load(st,args[0])
            if isinstance(v,It):
                r=ex.it_advance(st,v,1) if v.snap is not None and not isinstance(v.snap,str) and not v.rev else VOID
                ex.write(st,obj,T(z3.Store(c.t,v.cur,FALSE),ty)); return r
            x=coerce(pack(v),es)
            ex.write(st,obj,T(z3.Store(c.t,x,FALSE),ty)); return T(Ite(Select(c.t,x),z3.IntVal(1),z3.IntVal(0)),'u64')
        if op in('find','count'):
            x=s.elem(ex,st,args[0],es)
            if op=='count': return T(Ite(Select(c.t,x),z3.IntVal(1),z3.IntVal(0)),'u64')
            return It('key',obj if isinstance(obj,LV) else ex.temp(st,c,ty),ty,V=emptyset(es),cur=x,end=Not(Select(c.t,x)),snap=None)
        if op=='size': return T(card(c.t),'u64')
        if op=='empty': return T(isempty(c.t),'bool')
        if op=='clear': ex.write(st,obj,T(emptyset(es),ty)); return VOID
        if op in('begin','rbegin','cbegin'): return ex.it_begin(st,s.aslv(ex,st,obj,c,ty),ty,op=='rbegin')
        if op in('end','rend','cend'): return ex.it_end(st,s.aslv(ex,st,obj,c,ty),ty,op=='rend')
        raise Unsupported('set::'+op)
    def inserted(s,ex,st,obj,ty,ks,x,had,e):
        """what insert() gives back: where the element is, and whether it is new"""
        if not isinstance(obj,LV): return VOID
        return Pv(It('key',obj,ty,V=emptyset(ks),cur=x,end=FALSE,snap=None),ex.temp(st,T(Not(had),'bool'),'bool'),(e or {}).get('t'))
    def aslv(s,ex,st,obj,c,ty): return obj if isinstance(obj,LV) else ex.temp(st,c,ty)
    def m_map(s,ex,st,op,obj,args,e,ty):
        kt,vt=ptype(ty)[1]; ks=sort(kt); c=s.cget(ex,st,obj)
        if op=='operator[]' or op=='[]':
            x=s.elem(ex,st,args[0],ks); d=mdom(c.t,ty); vv=mval(c.t,ty); has=Select(d,x)
            dv=pack(s.dflt(ex,st,vt))
            if not is_t(has):
                nv=mkmap(z3.Store(d,x,TRUE),z3.Store(vv,x,Ite(has,Select(vv,x),dv)),ty)
                ex.write(st,obj,T(nv,ty))
            return LV(obj.root,obj.path+(('mv',x),),vt)
        if op=='at':
            x=s.elem(ex,st,args[0],ks); d=mdom(c.t,ty)
            bad=st.cp(); bad.assume(Not(Select(d,x))); 
            if not bad.dead(): ex.thr[-1].append((bad,Exc('rec:std::out_of_range')))
            st.assume(Select(d,x)); return LV(obj.root,obj.path+(('mv',x),),vt)
        if op in('find','count'):
            x=s.elem(ex,st,args[0],ks); d=mdom(c.t,ty)
            if op=='count': return T(Ite(Select(d,x),z3.IntVal(1),z3.IntVal(0)),'u64')
            return It('key',s.aslv(ex,st,obj,c,ty),ty,V=emptyset(ks),cur=x,end=Not(Select(d,x)),snap=None)
        if op=='erase':
            v=ex.load(st,args[0])
            x=v.cur if isinstance(v,It) else coerce(pack(v),ks); r=None
            if isinstance(v,It): r=ex.it_advance(st,v,1) if v.snap is not None and not isinstance(v.snap,str) and not v.rev else VOID
            d=mdom(c.t,ty); ex.write(st,obj,T(mkmap(z3.Store(d,x,FALSE),mval(c.t,ty),ty),ty)); return r if r is not None else T(Ite(Select(d,x),z3.IntVal(1),z3.IntVal(0)),'u64')
        if op=='insert' or op=='emplace':
            if len(args)==1:
                v=ex.load(st,args[0])
                if isinstance(v,Pv): x,y=v.a.t,pack(ex.read(st,v.b))
                else: x,y=pfst(v.t,v.ty),psnd(v.t,v.ty)
            else: x,y=s.elem(ex,st,args[0],ks),s.elem(ex,st,args[1],sort(vt))
            d=mdom(c.t,ty); has=Select(d,x)
            ex.write(st,obj,T(mkmap(z3.Store(d,x,TRUE),z3.Store(mval(c.t,ty),x,Ite(has,Select(mval(c.t,ty),x),y)),ty),ty)); return s.inserted(ex,st,obj,ty,ks,x,has,e)
        if op=='size': return T(card(mdom(c.t,ty)),'u64')
        if op=='empty': return T(isempty(mdom(c.t,ty)),'bool')
        if op=='clear': ex.write(st,obj,T(mkmap(emptyset(ks),core_val0(ty),ty),ty)); return VOID
        if op in('begin','rbegin'): return ex.it_begin(st,s.aslv(ex,st,obj,c,ty),ty,op=='rbegin')
        if op in('end','rend'): return ex.it_end(st,s.aslv(ex,st,obj,c,ty),ty,op=='rend')
        raise Unsupported('map::'+op)
    def dflt(s,ex,st,vt):
        n=s.__dict__.setdefault('_dflt',{})
        return ex.default(st,vt,True)
    def m_vec(s,ex,st,op,obj,args,e,ty):
        el=ptype(ty)[1][0]; es=sort(el); c=s.cget(ex,st,obj)
        if op in('push_back','emplace_back'):
            x=s.elem(ex,st,args[0],es); ex.write(st,obj,T(vpush(c.t,x,ty),ty))
            if ex.opts.get('small'): st.assume(vlen(c.t,ty)+1<2**31)
            return VOID
        if op=='size': return T(vlen(c.t,ty),'u64')
        if op=='empty': return T(Eq(vlen(c.t,ty),z3.IntVal(0)),'bool')
        if op=='clear': ex.write(st,obj,T(mkvec(z3.IntVal(0),core_arr0(ty),ty),ty)); return VOID
        if op in('[]','operator[]','at'): return LV(obj.root,obj.path+(('vi',s.In(ex,st,args[0])),),el)
        if op=='front': return LV(obj.root,obj.path+(('vi',z3.IntVal(0)),),el)
        if op=='back': return LV(obj.root,obj.path+(('vi',z3.simplify(vlen(c.t,ty)-1)),),el)
        if op=='pop_back': ex.write(st,obj,T(mkvec(z3.simplify(vlen(c.t,ty)-1),varr(c.t,ty),ty),ty)); return VOID
        if op in('begin','rbegin'): return ex.it_begin(st,s.aslv(ex,st,obj,c,ty),ty,op=='rbegin')
        if op in('end','rend'): return ex.it_end(st,s.aslv(ex,st,obj,c,ty),ty,op=='rend')
        if op=='erase':
            v=ex.load(st,args[0])
            if isinstance(v,It) and len(args)==1:
                n=vlen(c.t,ty); A=fresh('verase',z3.ArraySort(I,es)); j=z3.Int('j!e')
                st.assume(z3.ForAll([j],z3.Select(A,j)==z3.If(j<v.pos,Select(varr(c.t,ty),j),z3.Select(varr(c.t,ty),j+1)),patterns=[z3.Select(A,j)]))
                ex.write(st,obj,T(mkvec(n-1,A,ty),ty)); return It('idx',obj,ty,pos=v.pos)
        if op=='data' and el=='char':
            t=fresh('vdata',Str); j=z3.Int('j!vd'); A=varr(c.t,ty); X.deffact(t,z3.ForAll([j],strat(t,j)==Select(A,j),patterns=[strat(t,j)])); return T(t,'ptr(char)')
        if op=='data': return Raw('ptr(void)') if es!=I else T(fresh('vdata',Str),'ptr(char)')
        if op=='reserve': return VOID
        raise Unsupported('vector::'+op)
    def m_str(s,ex,st,op,obj,args,e):
        t=s.S(ex,st,obj)
        if op in('c_str','data'): return T(t,'ptr(char)')
        if op in('size','length'): return T(strlen(t),'u64')
        if op=='empty': return T(sempty(t),'bool')
        if op=='substr':
            p=s.In(ex,st,args[0]) if args else z3.IntVal(0); n=s.In(ex,st,args[1]) if len(args)>1 else z3.IntVal(NPOS)
            if not (isint(p) and p.as_long()==0):
                bad=st.cp(); bad.assume(p>strlen(t))
                if not bad.dead():
                    ex.thr[-1].append((bad,Exc('rec:std::out_of_range')))
                    st.assume(p<=strlen(t))
            return T(ssub_(t,p,n),'str')
        if op=='find':
            v=ex.load(st,args[0]); fr=s.In(ex,st,args[1]) if len(args)>1 else z3.IntVal(0)
            return T(s.find(v,t,fr,ex,st),'u64')
        if op in('rfind',):
            v=ex.load(st,args[0])
            if isinstance(v,T) and v.t.sort()==Str and lit_of(v.t) is not None and len(lit_of(v.t))==1: v=mkint(ord(lit_of(v.t)),'char')
            fr=s.In(ex,st,args[1]) if len(args)>1 else z3.IntVal(NPOS)
            if isinstance(v,T) and v.t.sort()==I and isint(fr) and fr.as_long()==NPOS: return T(srfindc(t,v.t),'u64')
            r=fresh('rfind',I); st.assume(z3.Or(r==NPOS,z3.And(r>=0,r<=strlen(t)))); return T(r,'u64')
        if op in('find_last_of','find_first_of'):
            v=ex.load(st,args[0])
            if isinstance(v,T) and v.t.sort()==Str and lit_of(v.t) is not None and len(lit_of(v.t))==1: v=mkint(ord(lit_of(v.t)),'char')
            if isinstance(v,T) and v.t.sort()==I:
                fr=s.In(ex,st,args[1]) if len(args)>1 else None
                if 'first' in op: return T(sfindc(t,v.t,fr if fr is not None else z3.IntVal(0)),'u64')
                if fr is None or isint(fr) and fr.as_long()==NPOS: return T(srfindc(t,v.t),'u64')
            r=fresh('findof',I); st.assume(z3.Or(r==NPOS,z3.And(r>=0,r<strlen(t)))); return T(r,'u64')
        if op=='erase':
            if not args: ex.write(st,obj,mkstr('')); return obj
            v=ex.load(st,args[0])
            if isinstance(v,It): p=v.pos; n=z3.IntVal(1)
            else: p=v.t; n=s.In(ex,st,args[1]) if len(args)>1 else z3.IntVal(NPOS)
            a=ssub_(t,z3.IntVal(0),p)
            if isint(n) and n.as_long()==NPOS: r=a
            else: r=cat(a,ssub_(t,p+n,z3.IntVal(NPOS)))
            ex.write(st,obj,T(r,'str')); return obj
        if op in('begin','rbegin'): return ex.it_begin(st,s.aslv(ex,st,obj,T(t,'str'),'str'),'str',op=='rbegin')
        if op in('end','rend'): return ex.it_end(st,s.aslv(ex,st,obj,T(t,'str'),'str'),'str',op=='rend')
        if op=='back': return T(strat(t,strlen(t)-1),'char')
        if op=='front': return T(strat(t,z3.IntVal(0)),'char')
        if op=='pop_back': ex.write(st,obj,T(ssub_(t,z3.IntVal(0),strlen(t)-1),'str')); return VOID
        if op=='push_back': ex.write(st,obj,T(cat(t,schr_(s.In(ex,st,args[0]))),'str')); return VOID
        if op=='append':
            ex.write(st,obj,T(cat(t,s.S(ex,st,args[0])),'str')); return obj
        if op=='clear': ex.write(st,obj,mkstr('')); return VOID
        if op=='compare':
            if len(args)>1: t=ssub_(t,s.In(ex,st,args[0]),s.In(ex,st,args[1])); args=args[2:]
            o=s.S(ex,st,args[0]); return T(Ite(Eq(t,o),z3.IntVal(0),fresh_nz(st)),'i32')
        if op=='replace':
            p,n=s.In(ex,st,args[0]),s.In(ex,st,args[1]); r=s.S(ex,st,args[2])
            ex.write(st,obj,T(cat(ssub_(t,z3.IntVal(0),p),cat(r,ssub_(t,p+n,z3.IntVal(NPOS)))),'str')); return obj
        if op=='insert':
            v=ex.load(st,args[0])
            if isinstance(v,T) and v.t.sort()==I:
                p=v.t; r=s.S(ex,st,args[1]); ex.write(st,obj,T(cat(ssub_(t,z3.IntVal(0),p),cat(r,ssub_(t,p,z3.IntVal(NPOS)))),'str')); return obj
        if op=='reserve': return VOID
        raise Unsupported('string::'+op)
    def find(s,v,t,fr,ex,st):
        if isinstance(v,T) and v.t.sort()==I: return sfindc(t,v.t,fr)
        l=lit_of(v.t) if isinstance(v,T) and v.t.sort()==Str else None
        if l is not None and len(l)==1: return sfindc(t,z3.IntVal(ord(l)),fr)
        b=s.S(ex,st,v); r=sfind(t,b,fr)
        st.assume(Implies(r!=NPOS,Eq(t,cat(ssub_(t,z3.IntVal(0),r),cat(b,ssub_(t,r+strlen(b),z3.IntVal(NPOS)))))))
        return r
    # ------------------------------------------------------------ operators
    def opcall(s,ex,st,e,vs):
        op=e['op']
        v0=ex.load(st,vs[0]) if not isinstance(vs[0],tuple) else vs[0]
        if op in('<<','>>'): return s.shift(ex,st,op,vs,v0,e)
        if isinstance(v0,tuple): return v0
        if op=='=':
            if isinstance(vs[0],LV):
                v=vs[1]
                if isinstance(v,tuple): 
                    v=s.construct(ex,st,{'t':v0.ty,'fn':{'name':'ctor'}},[v])
                v=ex.load(st,v)
                if isinstance(v,T) and v.t.sort()==I and isinstance(v0,T) and v0.t.sort()==Str: v=T(schr_(v.t),'str')
                if isinstance(v,T) and v.t.sort()==Str: v=T(v.t,'str')
                if isinstance(v,Pv): v=T(mkpair(pack(v.a),pack(ex.read(st,v.b)),v.ty),v.ty)
                if isinstance(v,Ptr) and isinstance(v0,T) and v0.t.sort()==Str: v=T(s.S(ex,st,v),'str')
                ex.write(st,vs[0],v)
            return vs[0]
        if isinstance(v0,It):
            if op=='*': return ex.deref(st,v0)
            if op=='->': return v0
            if op in('++','--'):
                ex.write(st,vs[0],ex.it_advance(st,v0,1 if op=='++' else -1))
                return vs[0] if len(vs)==1 else v0
            if op in('==','!='):
                v1=ex.load(st,vs[1]); r=ex.it_eq(st,v0,v1); return T(Not(r) if op=='!=' else r,'bool')
            if op in('+','-') and v0.kind=='idx':
                v1=ex.load(st,vs[1])
                if isinstance(v1,It): return T(z3.simplify(v0.pos-v1.pos),'i64')
                return v0.cp(pos=z3.simplify(v0.pos+(v1.t if op=='+' else -v1.t)),snap=None)
        if op=='[]':
            k=kind(v0.ty) if isinstance(v0,T) else None
            if k=='map': return s.m_map(ex,st,'[]',vs[0],vs[1:],e,strip_ref(v0.ty))
            if k=='vec': return s.m_vec(ex,st,'[]',vs[0],vs[1:],e,strip_ref(v0.ty))
            if k in('str','cstr'):
                i=s.In(ex,st,vs[1])
                return LV(vs[0].root,vs[0].path+(('ch',i),),'char') if isinstance(vs[0],LV) else T(strat(v0.t,i),'char')
        if op=='+':
            return T(cat(s.S2(ex,st,vs[0]),s.S2(ex,st,vs[1])),'str')
        if op=='+=':
            ex.write(st,vs[0],T(cat(v0.t,s.S2(ex,st,vs[1])),'str')); return vs[0]
        if op in('==','!='):
            v1=ex.load(st,vs[1]); r=ex.equal(st,v0,v1); return T(Not(r) if op=='!=' else r,'bool')
        if op in('<','>','<=','>='):
            v1=ex.load(st,vs[1]); a,b=pack(v0),pack(v1)
            if a.sort()==Str:
                r={'<':slt(a,b),'>':slt(b,a),'<=':Not(slt(b,a)),'>=':Not(slt(a,b))}[op]; return T(r,'bool')
        if op=='!':
            if isinstance(v0,Stream): return T(v0.f['fail'].t,'bool')
        if isinstance(v0,Raw): return ex.frv(st,'op',e['t']) if e.get('t') else Raw('?')
        raise Unsupported('operator %s on %r'%(op,v0))
    def S2(s,ex,st,v):
        x=ex.load(st,v)
        if isinstance(x,T) and x.t.sort()==I: return schr_(x.t)
        return s.S(ex,st,v)
    def shift(s,ex,st,op,vs,v0,e):
        if isinstance(v0,Stream):
            if v0.kind=='console' or v0.kind=='osit0': return vs[0]
            r=vs[1]
            rv=ex.load(st,r) if not isinstance(r,tuple) else r
            endl=isinstance(rv,Clo) and 'fnref' in rv.node and 'endl' in rv.node['fnref']['name']
            if v0.kind=='oss':
                man=getattr(rv,'man',None) or (('hex',mkbool(True)) if isinstance(rv,Clo) and 'fnref' in rv.node and rv.node['fnref']['name'] in('hex','std::hex') else None)
                if man and man[0] in v0.f: f=dict(v0.f); f[man[0]]=man[1]; ex.write(st,vs[0],Stream('oss',f)); return vs[0]
                if man: return vs[0]
                if isinstance(rv,T) and rv.ty!='char' and 'hex' in v0.f and not(is_f(v0.f['hex'].t) and isint(v0.f['w'].t) and v0.f['w'].t.as_long()==0) and rv.t.sort()==I:
                    # a number in another base, or padded: known only for two hexadecimal digits with leading zeros
                    f=dict(v0.f); o=fresh('fmt',Str); x=rv.t
                    t=Ite(And(f['hex'].t,f['w'].t==2,f['fill'].t==48,0<=x,x<256),hex2(x),Ite(And(Not(f['hex'].t),f['w'].t==0),itos_(x),o))
                    f['text']=T(cat(f['text'].t,t),'str'); f['w']=mkint(0); ex.write(st,vs[0],Stream('oss',f)); return vs[0]
                if 'w' in v0.f and not(isint(v0.f['w'].t) and v0.f['w'].t.as_long()==0) and isinstance(rv,T):
                    f=dict(v0.f); f['text']=T(cat(f['text'].t,fresh('fmt',Str)),'str'); f['w']=mkint(0); ex.write(st,vs[0],Stream('oss',f)); return vs[0]
                if isinstance(rv,T): t=rv.t if rv.t.sort()==Str else (schr_(rv.t) if rv.ty=='char' else itos_(coerce(rv.t,I)) if rv.t.sort() in(I,B) else fresh('txt',Str))
                elif endl: t=lit('\n')
                else: return vs[0]
                f=dict(v0.f); f['text']=T(cat(f['text'].t,t),'str'); ex.write(st,vs[0],Stream('oss',f)); return vs[0]
            if v0.kind=='out':
                f=dict(v0.f); part=f['part'].t
                nf=T(Or(f['fail'].t,fresh('wfail',B)),'bool')
                if endl: f['lines']=T(vpush(f['lines'].t,part),VS); f['part']=mkstr('')
                elif isinstance(rv,T):
                    t=rv.t if rv.t.sort()==Str else (schr_(rv.t) if rv.ty=='char' else itos_(coerce(rv.t,I)))
                    l=lit_of(t)
                    if isinstance(rv,T) and rv.ty=='char' and isint(rv.t) and rv.t.as_long()==10: l='\n'
                    if l is not None and '\n' in l:
                        segs=l.split('\n')
                        for sg in segs[:-1]:
                            f['lines']=T(vpush(f['lines'].t,cat(part,lit(sg))),VS); part=lit('')
                        f['part']=T(cat(part,lit(segs[-1])),'str')
                    else: f['part']=T(cat(part,t),'str')
                f['fail']=nf
                ex.write(st,vs[0],Stream('out',f)); return vs[0]
            if v0.kind=='in': raise Unsupported('formatted input')
        if isinstance(v0,T) and v0.t.sort()==I: return ex.binop(st,op,v0,ex.load(st,vs[1]),e['t'])
        if isinstance(v0,(Raw,T)): return vs[0]
        raise Unsupported('<< on %r'%v0)
    # ------------------------------------------------------------ calls
    def repo_override(s,ex,st,fn,obj,args,e): return None
    def call(s,ex,st,fn,obj,args,e):
        nm=strip_targs(fn['name']); cls,_,op=nm.rpartition('::')
        c=ex.opts.get('ext',{}).get(nm)
        if c is not None: return c(ex,st,fn,obj,args,e)
        if obj is not None:
            o=ex.load(st,obj) if isinstance(obj,(LV,)) else obj
            if isinstance(o,Ptr): obj=o.lv; o=ex.read(st,obj)
            if isinstance(o,T):
                ty=strip_ref(o.ty); k=kind(ty)
                if k in('str','cstr'): return s.m_str(ex,st,op,obj,args,e)
                if k=='set': return s.m_set(ex,st,op,obj,args,e,ty)
                if k=='map': return s.m_map(ex,st,op,obj,args,e,ty)
                if k=='vec': return s.m_vec(ex,st,op,obj,args,e,ty)
            if isinstance(o,Stream): return s.m_stream(ex,st,op,obj,o,args,e)
            if op=='what': return T(fresh('what',Str),'ptr(char)')
            if isinstance(o,Raw):
                ex.note('result of external member %s is arbitrary'%nm)
                return ex.frv(st,op,fn['ret']) if fn['ret']!='void' else VOID
            raise Unsupported('external member %s on %r'%(nm,o))
        m=getattr(s,'f_'+nm.replace('std::','').replace('::','_'),None)
        if m is not None: return m(ex,st,args,e,fn)
        if nm in PURE or re.match(r'(archive_|EVP_|PEM_|ERR_|OPENSSL|curl_|ZSTD_)',nm):
            return ex.frv(st,nm.split('::')[-1],fn['ret']) if fn['ret']!='void' else VOID
        raise Unsupported('external function '+nm)
    def m_stream(s,ex,st,op,obj,o,args,e):
        f=dict(o.f)
        if op=='eof': return T(f['eof'].t,'bool') if 'eof' in f else mkbool(False)
        if op=='bad' and 'bad' in f: return T(f['bad'].t,'bool')
        if op in('bad','fail'): return T(f['fail'].t,'bool')
        if op=='good': return T(And(Not(f['fail'].t),Not(f['eof'].t)),'bool') if 'eof' in f else T(Not(f['fail'].t),'bool')
        if op in('operator bool','is_open'): return T(Not(f['fail'].t),'bool')
        if op=='str': return T(f['text'].t,'str')
        if op in('flush','close'):
            if o.kind=='out':
                nf=Or(f['fail'].t,fresh('flushfail',B)); f['fail']=T(nf,'bool'); p=f['path'].t
                L=s.g(ex,st,'fs_lines')
                # buffered text reaches the file; an unterminated last line counts as a line
                content=Ite(Eq(f['part'].t,lit('')),f['lines'].t,vpush(f['lines'].t,f['part'].t))
                other=fresh('partial',sort(VS))
                st.ghost['fs_lines']=z3.Store(L,p,Ite(nf,other,content)); st.ghost['fs_synced']=z3.Store(s.g(ex,st,'fs_synced'),p,FALSE)
                ex.write(st,obj,Stream('out',f)); return obj
            if op=='close' and o.kind=='in': return VOID
            return obj
        if o.kind=='console': return obj
        if o.kind=='in' and op=='gcount': return T(f['cnt'].t,'i64') if 'cnt' in f else mkint(0,'i64')
        if o.kind=='in' and op=='read':
            # bytes of the file from the current offset; a short count means end of file or an input error
            p=f['path'].t; off=f['pos'].t; n=s.In(ex,st,args[1]); bad=Or(f['fail'].t,f['eof'].t); ln=flen(p); st.assume(ln>=0)
            err=fresh('_inerr',B); k=fresh('cnt',I); st.assume(k>=0,k<=n,Implies(bad,k==0),Implies(Not(bad),k<=ln-off),Implies(And(Not(bad),Not(err)),k==z3.If(n<=ln-off,n,ln-off)))
            st.ghost['_inerr']=Or(s.g(ex,st,'_inerr'),And(Not(bad),err))
            b=args[0]; b=b.lv if isinstance(b,Ptr) and b.lv is not None else b
            t=fresh('chunk',Str); j=z3.Int('j!ch'); X.deffact(t,z3.ForAll([j],Implies(z3.And(0<=j,j<k),strat(t,j)==fbyte(p,off+j)),patterns=[strat(t,j)])); X.deffact(t,z3.ForAll([j],Implies(z3.And(off<=j,j<off+k),fbyte(p,j)==strat(t,j-off)),patterns=[fbyte(p,j)]))
            ex.write(st,b,T(t,'ptr(char)'))
            f['pos']=T(off+k,'i64'); f['cnt']=T(k,'i64'); short=And(Not(bad),k<n)
            if 'bad' in f: f['bad']=T(Or(f['bad'].t,And(short,err)),'bool')
            f['eof']=T(Or(f['eof'].t,And(short,Not(err))),'bool'); f['fail']=T(Or(bad,short),'bool')
            ex.write(st,obj,Stream('in',f)); return obj
        if o.kind=='in' and op in('seekg','tellg'):
            raise Unsupported('stream '+op)
        raise Unsupported('stream method '+op)
    # --- STL algorithms
    def f_getline(s,ex,st,args,e,fn):
        o=ex.load(st,args[0]); f=dict(o.f)
        if o.kind!='in' or len(args)>2: raise Unsupported('getline')
        L=Select(s.g(ex,st,'fs_lines'),f['path'].t); p=f['pos'].t; n=vlen(L,VS); nl=z3.Function('nl_end',Str,B)(f['path'].t)
        bad=Or(f['fail'].t,f['eof'].t); have=And(Not(bad),p<n); old=ex.load(st,args[1]).t
        st.assume(n>=0)
        line=Select(varr(L,VS),p)
        ex.write(st,args[1],T(Ite(have,line,Ite(bad,old,lit(''))),'str'))
        f['pos']=T(Ite(have,p+1,p),'i64')
        f['eof']=T(Or(f['eof'].t,And(Not(bad),z3.Or(p>=n,z3.And(p+1==n,Not(nl))))),'bool'); f['fail']=T(Or(bad,And(Not(bad),p>=n)),'bool')
        ex.write(st,args[0],Stream('in',f)); return args[0]
    def f_copy(s,ex,st,args,e,fn):
        b,en,d=args; b=ex.load(st,b); en=ex.load(st,en)
        d=ex.load(st,d) if isinstance(d,LV) else d
        if isinstance(d,Stream) and d.kind=='osit0': return d
        if isinstance(d,tuple) and d[0]=='osit':
            o=ex.load(st,d[1])
            if o.kind=='console': return d
            if o.kind=='out' and lit_of(d[2])=='\n' and b.kind=='key' and is_f_emptyV(b) and isinstance(en.snap,str) and not b.rev:
                ss,vc=seqfns(); f=dict(o.f)
                C=ex.contset(st,b.clv,b.cty)
                ex.oblige(st,Eq(f['part'].t,lit('')),'stream starts at a line boundary','lib') if not is_t(Eq(f['part'].t,lit(''))) else None
                old=f['lines'].t; v=fresh('outl',sort(VS))
                f['lines']=T(vc(old,ss(C)) if not (isint(vlen(old,VS)) and vlen(old,VS).as_long()==0) else ss(C),VS)
                f['fail']=T(Or(f['fail'].t,fresh('wfail',B)),'bool')
                ex.write(st,d[1],Stream('out',f)); return d
        raise Unsupported('std::copy %r %r'%(b,d))
    def f_inserter(s,ex,st,args,e,fn): return ('ins',args[0])
    def f_back_inserter(s,ex,st,args,e,fn): return ('bins',args[0])
    def f_set_intersection(s,ex,st,args,e,fn):
        b1,e1,b2,e2,d=[ex.load(st,a) if not isinstance(a,tuple) else a for a in args]
        if d[0]!='ins' or not all(x.kind=='key' and is_f_emptyV(x) and not x.rev for x in(b1,b2)) or not isinstance(e1.snap,str) or not isinstance(e2.snap,str) or not same(b1.clv,e1.clv) or not same(b2.clv,e2.clv): raise Unsupported('set_intersection')
        A=ex.contset(st,b1.clv,b1.cty); C=ex.contset(st,b2.clv,b2.cty); D=ex.load(st,d[1])
        r=setop(lambda x:Or(terms.sel(D.t,x),And(terms.sel(A,x),terms.sel(C,x))),A.sort(),'isect')
        ex.write(st,d[1],T(r,D.ty)); return d
    def f_to_string(s,ex,st,args,e,fn): return T(itos_(s.In(ex,st,args[0])),'str')
    def f_stoi(s,ex,st,args,e,fn):
        t=s.S(ex,st,args[0]); b=s.In(ex,st,args[2]) if len(args)>2 else z3.IntVal(10)
        bad=st.cp(); bad.assume(fresh('stoi_bad',B)); ex.thr[-1].append((bad,Exc('rec:std::invalid_argument')))
        r=T(satoi(t) if isint(b) and b.as_long()==10 else stoi16(t) if isint(b) and b.as_long()==16 else fresh('stoi',I),'i32'); ex.assume_range(st,r); return r
    def strip(s,n): return strip_targs(n)
    def f_make_pair(s,ex,st,args,e,fn):
        a,b=[ex.load(st,x) for x in args]; ty=strip_ref(fn['ret'] if kind(fn['ret'])=='pair' else e['t'])
        ts=ptype(ty)[1]
        return T(mkpair(coerce(pack(a),sort(ts[0])),coerce(pack(b),sort(ts[1])),ty),ty)
    def f_forward(s,ex,st,args,e,fn): return args[0]
    def f_swap(s,ex,st,args,e,fn):
        a,b=ex.load(st,args[0]),ex.load(st,args[1]); ex.write(st,args[0],b); ex.write(st,args[1],a); return VOID
    def minmax(s,ex,st,args,lt):
        if len(args)!=2: raise Unsupported('std::min with a comparison')
        a,b=ex.load(st,args[0]),ex.load(st,args[1])
        if not(isinstance(a,T) and a.t.sort()==I): raise Unsupported('std::min of other things than numbers')
        return T(Ite(lt(b.t,a.t),b.t,a.t),a.ty)
    def f_min(s,ex,st,args,e,fn): return s.minmax(ex,st,args,lambda x,y:x<y)
    def f_max(s,ex,st,args,e,fn): return s.minmax(ex,st,args,lambda x,y:x>y)
    def f_next(s,ex,st,args,e,fn):
        v=ex.load(st,args[0])
        if not isinstance(v,It) or len(args)>1 and not(isint(ex.load(st,args[1]).t) and ex.load(st,args[1]).t.as_long()==1): raise Unsupported('std::next')
        return ex.it_advance(st,v,1)
    def f_move(s,ex,st,args,e,fn): return args[0]
    def f_setw(s,ex,st,args,e,fn): r=Manip(); r.man=('w',T(s.In(ex,st,args[0]),'i32')); return r
    def f_setfill(s,ex,st,args,e,fn): r=Manip(); r.man=('fill',T(s.In(ex,st,args[0]),'char')); return r
    # --- C strings
    def f_strlen(s,ex,st,args,e,fn): return T(strlen(s.S(ex,st,args[0])),'u64')
    def f_strcmp(s,ex,st,args,e,fn):
        a,b=s.S(ex,st,args[0]),s.S(ex,st,args[1]); return T(Ite(Eq(a,b),z3.IntVal(0),fresh_nz(st)),'i32')
    def f_strncmp(s,ex,st,args,e,fn):
        a,b,n=s.S(ex,st,args[0]),s.S(ex,st,args[1]),s.In(ex,st,args[2]); z=z3.IntVal(0)
        return T(Ite(Eq(ssub_(a,z,n),ssub_(b,z,n)),z,fresh_nz(st)),'i32')
    def f_strtok(s,ex,st,args,e,fn):
        d=s.S(ex,st,args[1]); a=ex.load(st,args[0])
        if not (isinstance(a,Ptr) and a.lv is None) and not (isinstance(a,T) and a.t.eq(NULLSTR)):
            st.ghost['_tokstr']=s.S(ex,st,a); st.ghost['_tokpos']=z3.IntVal(0)
        v=tokv(ex.g(st,'_tokstr',Str),d); p=ex.g(st,'_tokpos',I); st.assume(vlen(v,VS)>=0)
        st.ghost['_tokpos']=z3.simplify(p+1); k=z3.Int('k!tok')
        st.assume(z3.ForAll([k],Select(varr(v,VS),k)!=NULLSTR,patterns=[Select(varr(v,VS),k)]))
        return T(Ite(p<vlen(v,VS),Select(varr(v,VS),p),NULLSTR),'ptr(char)')
    def f_sscanf(s,ex,st,args,e,fn):
        t=s.S(ex,st,args[0]); f=lit_of(s.S(ex,st,args[1]))
        if f is None or not all(x=='%s' for x in f.split()) or len(f.split())!=len(args)-2: raise Unsupported('sscanf %r'%f)
        v=wordv(t); n=vlen(v,VS); st.assume(n>=0)
        for k,a in enumerate(args[2:]):
            d=a.lv if isinstance(a,Ptr) and a.lv is not None else a; o=ex.read(st,d)
            w=Select(varr(v,VS),z3.IntVal(k)); st.assume(Implies(k<n,And(w!=NULLSTR,strlen(w)<=strlen(t))))
            ex.write(st,d,T(Ite(k<n,w,o.t),o.ty))
        return T(Ite(z3.And(n==0),z3.IntVal(-1),Ite(n<len(args)-2,n,z3.IntVal(len(args)-2))),'i32')
    def f_strdup(s,ex,st,args,e,fn): return T(s.S(ex,st,args[0]),'ptr(char)')
    def f_strcpy(s,ex,st,args,e,fn):
        ex.write(st,args[0],T(s.S(ex,st,args[1]),'ptr(char)')); return args[0]
    def f_strncpy(s,ex,st,args,e,fn):
        t=s.S(ex,st,args[1]); n=s.In(ex,st,args[2]); ok=strlen(t)<n
        g=fresh('unterminated',Str); X.deffact(g,ssub(g,z3.IntVal(0),n)==ssub(t,z3.IntVal(0),n))
        ex.write(st,args[0],T(Ite(ok,t,g),'ptr(char)')); return args[0]
    def f_strcat(s,ex,st,args,e,fn):
        ex.write(st,args[0],T(cat(s.S(ex,st,args[0]),s.S(ex,st,args[1])),'ptr(char)')); return args[0]
    def f_dirname(s,ex,st,args,e,fn): return T(sdirname(s.S(ex,st,args[0])),'ptr(char)')
    def f___xpg_basename(s,ex,st,args,e,fn): return T(sbasename(s.S(ex,st,args[0])),'ptr(char)')
    f_basename=f___xpg_basename
    def f_strerror(s,ex,st,args,e,fn): return T(fresh('strerror',Str),'ptr(char)')
    def f_gettext(s,ex,st,args,e,fn): return T(s.S(ex,st,args[0]),'ptr(char)')
    def f_atoi(s,ex,st,args,e,fn): r=T(satoi(s.S(ex,st,args[0])),'i32'); ex.assume_range(st,r); return r
    def f_ctime(s,ex,st,args,e,fn):
        p=ex.load(st,args[0]); return T(z3.Function('sctime',I,Str)(ex.read(st,p.lv).t),'ptr(char)')
    def f_strtoul(s,ex,st,args,e,fn):
        f=z3.Function('sstrtoul',Str,I,I); r=T(f(s.S(ex,st,args[0]),s.In(ex,st,args[2])),'u64'); ex.assume_range(st,r); return r
    def f_isspace(s,ex,st,args,e,fn):
        c=s.In(ex,st,args[0]); return T(Ite(z3.Or(c==32,z3.And(c>=9,c<=13)),z3.IntVal(1),z3.IntVal(0)),'i32')
    def f_tolower(s,ex,st,args,e,fn):
        c=s.In(ex,st,args[0]); return T(z3.If(z3.And(c>=65,c<=90),c+32,c),'i32')
    def f_toupper(s,ex,st,args,e,fn):
        c=s.In(ex,st,args[0]); return T(z3.If(z3.And(c>=97,c<=122),c-32,c),'i32')
    def f_memcmp(s,ex,st,args,e,fn):
        a,b,n=s.S(ex,st,args[0]),s.S(ex,st,args[1]),s.In(ex,st,args[2]); j=z3.Int('j!mc')
        r=fresh('mcmp',I); X.deffact(r,(r==0)==z3.ForAll([j],Implies(z3.And(0<=j,j<n),strat(a,j)==strat(b,j)),patterns=[strat(a,j),strat(b,j)]))
        return T(r,'i32')
    def f_readlink(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); n=s.In(ex,st,args[2]); d=args[1]; d=d.lv if isinstance(d,Ptr) and d.lv is not None else d
        ok=fresh('readlink_ok',B); t=slink(p); st.assume(slen(t)<=4095,slen(t)>=0); old=ex.read(st,d).t
        st.ghost['_inerr']=Or(s.g(ex,st,'_inerr'),Not(ok))
        st.assume(Implies(ok,terms.sel(s.g(ex,st,'fs_ex'),p)))
        z=lit_of(old)=='' ; v=ssub_(t,z3.IntVal(0),n) if not (isint(n) and n.as_long()>=4095) else t
        ex.write(st,d,T(Ite(ok,v if z else fresh('linkbuf',Str),old if z else fresh('linkbuf',Str)),'ptr(char)'))
        r=Ite(ok,z3.If(slen(t)<=n,slen(t),n),z3.IntVal(-1)); return T(r,'i64')
    def f_ignore(s,ex,st,args,e,fn): return VOID
    def f_memset(s,ex,st,args,e,fn):
        v=ex.load(st,args[0]); z=ex.load(st,args[1]).t
        if isinstance(v,Ptr) and v.lv is not None and isinstance(ex.read(st,v.lv),T) and ex.read(st,v.lv).t.sort()==Str and isint(z) and z.as_long()==0: ex.write(st,v.lv,T(lit(''),ex.read(st,v.lv).ty)); return args[0]
        if isinstance(v,T) and v.t.sort()==Str and isinstance(args[0],LV) and isint(ex.load(st,args[1]).t): ex.write(st,args[0],T(lit(''),v.ty))
        elif isinstance(v,Ptr) and v.lv is not None: ex.write(st,v.lv,ex.frv(st,'memset',v.lv.ty or '?'))
        return args[0]
    # --- console
    def f_printf(s,ex,st,args,e,fn): return ex.frv(st,'printf','i32')
    def fmt(s,ex,st,f,args):
        f=lit_of(f); r=lit(''); i=0; k=0
        if f is None: return fresh('fmt',Str)
        for m in re.finditer(r'%([-0 #+]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j)?([diuxXoscp%])|([^%]+)',f):
            if m.group(6) is not None: r=cat(r,lit(m.group(6))); continue
            cv=m.group(5)
            if cv=='%': r=cat(r,lit('%')); continue
            v=args[k]; k+=1
            if m.group(1) or m.group(2) or m.group(3) is not None or cv in 'xXop': r=cat(r,fresh('fmt',Str)); continue
            r=cat(r,s.S(ex,st,v) if cv=='s' else schr_(s.In(ex,st,v)) if cv=='c' else itos_(s.In(ex,st,v)))
        return r
    def f_sprintf(s,ex,st,args,e,fn):
        r=s.fmt(ex,st,s.S(ex,st,args[1]),args[2:]); d=args[0]
        if isinstance(d,Ptr) and d.lv is not None: d=d.lv
        ex.write(st,d,T(r,'ptr(char)')); return ex.frv(st,'sprintf','i32')
    def f_snprintf(s,ex,st,args,e,fn):
        r=s.fmt(ex,st,s.S(ex,st,args[2]),args[3:]); n=s.In(ex,st,args[1]); d=args[0]
        if isinstance(d,Ptr) and d.lv is not None: d=d.lv
        ex.write(st,d,T(ssub_(r,z3.IntVal(0),z3.simplify(n-1)),'ptr(char)')); return ex.frv(st,'snprintf','i32')
    f_fprintf=f_printf; f_perror=f_printf; f_warn=f_printf
    def f_free(s,ex,st,args,e,fn): return VOID
    def f_syslog(s,ex,st,args,e,fn): return VOID
    f_openlog=f_syslog
    def f_exit(s,ex,st,args,e,fn):
        ex.exits.append((st,s.In(ex,st,args[0]))); return []
    f__exit=f_exit
    def f___errno_location(s,ex,st,args,e,fn):
        r=ex.newroot('errno'); st.store[r]=ex.frv(st,'errno','i32'); return Ptr(LV(r,(),'i32'),'ptr(i32)')
    # --- processes
    def f_fork(s,ex,st,args,e,fn):
        p=fresh('pid',I); st.assume(p>=-1); s.effect(ex,st,'fork',None); st.ghost['childpid']=p; st.ghost['waited']=FALSE; return T(p,'i32')
    f_vfork=f_fork
    def f_waitpid(s,ex,st,args,e,fn):
        p=s.In(ex,st,args[0]); o=s.In(ex,st,args[2]); r=fresh('wait',I); w=fresh('wstatus',I)
        st.assume(r>=-1,Implies(p>0,z3.Or(r==p,r==0,r==-1)),Implies(o%2==0,r!=0),z3.And(w>=0,w<65536))
        a=ex.load(st,args[1])
        if isinstance(a,Ptr) and a.lv is not None: ex.write(st,a.lv,T(Ite(r>0,w,ex.read(st,a.lv).t),'i32'))
        mine=And(r>0,r==s.g(ex,st,'childpid')); st.ghost['wst']=Ite(mine,w,s.g(ex,st,'wst')); st.ghost['waited']=Or(s.g(ex,st,'waited'),mine)
        return T(r,'i32')
    def f_wait(s,ex,st,args,e,fn): return s.f_waitpid(ex,st,[mkint(-1),args[0],mkint(0)],e,fn)
    def f_execl(s,ex,st,args,e,fn):
        s.effect(ex,st,'exec',s.S(ex,st,args[0]),[None if (isinstance(a,Ptr) and a.lv is None) or (isinstance(a,T) and a.t.sort()==I) else s.S(ex,st,a) for a in args[1:]]); return mkint(-1)
    def f_execv(s,ex,st,args,e,fn): s.effect(ex,st,'exec',s.S(ex,st,args[0]),None); return mkint(-1)
    f_execvp=f_execv; f_execve=f_execv; f_execlp=f_execl
    def f_pipe(s,ex,st,args,e,fn): return s.failing(ex,st,'pipe')[1]
    def f_dup2(s,ex,st,args,e,fn): return ex.frv(st,'dup2','i32')
    def f_write(s,ex,st,args,e,fn): return ex.frv(st,'write',fn['ret'])
    def f_read(s,ex,st,args,e,fn):
        n=s.In(ex,st,args[2]); r=fresh('nread',I); st.assume(r>=-1,r<=n)
        d=args[1]; d=d.lv if isinstance(d,Ptr) and d.lv is not None else d
        if isinstance(d,LV): ex.write(st,d,T(fresh('readbuf',Str),'ptr(char)'))
        return T(r,fn['ret'])
    # --- regular expressions
    def f_regcomp(s,ex,st,args,e,fn):
        p=ex.load(st,args[0]); ex.write(st,p.lv,Obj('rec:re_pattern_buffer',{'pat':T(s.S(ex,st,args[1]),'str')}))
        r=fresh('regcomp',I); return T(r,'i32')
    def f_regexec(s,ex,st,args,e,fn):
        p=ex.load(st,args[0]); o=ex.read(st,p.lv)
        if not isinstance(o,Obj): return ex.frv(st,'regexec','i32')
        return T(Ite(rmatch(o.f['pat'].t,s.S(ex,st,args[1])),z3.IntVal(0),fresh_nz(st)),'i32')
    def f_regfree(s,ex,st,args,e,fn): return VOID
    # --- file system
    def failing(s,ex,st,base):
        """result 0 or -1"""
        ok=fresh(base+'_ok',B); return ok,T(Ite(ok,z3.IntVal(0),z3.IntVal(-1)),'i32')
    def delete(s,ex,st,args,kind_):
        p=s.S(ex,st,args[0]); s.effect(ex,st,kind_,p)
        ok,r=s.failing(ex,st,kind_)
        E=s.g(ex,st,'fs_ex'); st.assume(Implies(ok,terms.sel(E,p)))
        st.ghost['removed']=z3.Store(s.g(ex,st,'removed'),p,TRUE)
        st.ghost['fs_ex']=z3.Store(E,p,And(terms.sel(E,p),Not(ok)))
        return r
    def f_remove(s,ex,st,args,e,fn): return s.delete(ex,st,args,'remove')
    def f_unlink(s,ex,st,args,e,fn): return s.delete(ex,st,args,'unlink')
    def f_rmdir(s,ex,st,args,e,fn): return s.delete(ex,st,args,'rmdir')
    def touch(s,ex,st,p,kind_,p2=None):
        s.effect(ex,st,kind_,p,p2)
        st.ghost['wrote']=z3.Store(s.g(ex,st,'wrote'),p2 if p2 is not None else p,TRUE)
    def f_rename(s,ex,st,args,e,fn):
        a,b=s.S(ex,st,args[0]),s.S(ex,st,args[1]); s.touch(ex,st,a,'rename',b)
        ok,r=s.failing(ex,st,'rename'); E=s.g(ex,st,'fs_ex'); L=s.g(ex,st,'fs_lines')
        st.assume(Implies(ok,terms.sel(E,a)))
        st.ghost['fs_ex']=Ite(ok,z3.Store(z3.Store(E,a,FALSE),b,TRUE),E)
        st.ghost['fs_lines']=Ite(ok,z3.Store(L,b,Select(L,a)),L)
        return r
    def f_link(s,ex,st,args,e,fn):
        a,b=s.S(ex,st,args[0]),s.S(ex,st,args[1]); s.touch(ex,st,b,'link'); ok,r=s.failing(ex,st,'link')
        E=s.g(ex,st,'fs_ex'); L=s.g(ex,st,'fs_lines')
        st.ghost['fs_ex']=Ite(ok,z3.Store(E,b,TRUE),E); st.ghost['fs_lines']=Ite(ok,z3.Store(L,b,Select(L,a)),L); return r
    def f_mkdir(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); s.touch(ex,st,p,'mkdir'); ok,r=s.failing(ex,st,'mkdir'); E=s.g(ex,st,'fs_ex')
        st.ghost['fs_ex']=z3.Store(E,p,Or(terms.sel(E,p),ok)); return r
    def f_chmod(s,ex,st,args,e,fn): return s.failing(ex,st,'chmod')[1]
    f_utime=f_chmod
    def newfd(s,ex,st,p):
        fd=fresh('fd',I); st.assume(fd>=-1); st.ghost['fdpath']=z3.Store(s.g(ex,st,'fdpath'),fd,p); return fd
    def f_creat(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); s.touch(ex,st,p,'creat'); fd=s.newfd(ex,st,p)
        L=s.g(ex,st,'fs_lines'); E=s.g(ex,st,'fs_ex'); st.ghost['fs_lines']=z3.Store(L,p,Ite(fd>=0,vempty(),Select(L,p))); st.ghost['fs_ex']=z3.Store(E,p,Or(terms.sel(E,p),fd>=0))
        st.ghost['fs_synced']=z3.Store(s.g(ex,st,'fs_synced'),p,FALSE)
        return T(fd,'i32')
    def f_open(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); fl=ex.load(st,args[1]).t
        if not isint(fl) or fl.as_long()&3: s.touch(ex,st,p,'open_w')
        return T(s.newfd(ex,st,p),'i32')
    def f_close(s,ex,st,args,e,fn):
        s.effect(ex,st,'close',s.In(ex,st,args[0])); return s.failing(ex,st,'close')[1]
    def f_fsync(s,ex,st,args,e,fn):
        fd=s.In(ex,st,args[0]); p=Select(s.g(ex,st,'fdpath'),fd); ok,r=s.failing(ex,st,'fsync')
        st.ghost['fs_synced']=z3.Store(s.g(ex,st,'fs_synced'),p,ok); return r
    def f_fopen(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); m=lit_of(s.S(ex,st,args[1]))
        if m is None or m[0]!='r' or '+' in m: s.touch(ex,st,p,'fopen_w')
        r=fresh('FILE',Opq); st.store[('file',r.decl().name())]=T(z3.IntVal(0),'i64')
        return T(r,fn['ret'])
    def f_lstat(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); b=ex.load(st,args[1])
        E=s.g(ex,st,'fs_ex'); ok=terms.sel(E,p)
        mode=z3.Function('st_mode_of',Str,I); o={'stat::st_mode':T(mode(p),'u32')}
        for n,t in(('st_uid','u32'),('st_gid','u32'),('st_dev','u64'),('st_rdev','u64'),('st_size','i64')):
            f=z3.Function(n+'_of',Str,I); o['stat::'+n]=T(f(p),t)
        for v in o.values(): ex.assume_range(st,v)
        if b.lv is not None: ex.write(st,b.lv,Obj('rec:stat',o))
        return T(Ite(ok,z3.IntVal(0),z3.IntVal(-1)),'i32')
    def f_stat(s,ex,st,args,e,fn):
        b=ex.load(st,args[1]); ex.write(st,b.lv,Raw('rec:stat')); return s.failing(ex,st,'stat')[1]
    def f_fstat(s,ex,st,args,e,fn): return s.f_stat(ex,st,args,e,fn)
    def f_access(s,ex,st,args,e,fn):
        # follows links and asks for permission: it succeeds only if the name is there, not whenever it is
        p=s.S(ex,st,args[0]); ok,r=s.failing(ex,st,'access'); st.assume(z3.Implies(ok,terms.sel(s.g(ex,st,'fs_ex'),p))); return r
    def f_getcwd(s,ex,st,args,e,fn):
        t=T(s.g(ex,st,'_cwd'),'ptr(char)')
        b=args[0]
        if isinstance(b,LV): ex.write(st,b,t)
        return t
    def f_chdir(s,ex,st,args,e,fn):
        p=s.S(ex,st,args[0]); s.effect(ex,st,'chdir',p); ok,r=s.failing(ex,st,'chdir'); c=s.g(ex,st,'_cwd'); st.ghost['_cwd']=Ite(ok,z3.Function('realdir',Str,Str)(p),c); return r
    def f_opendir(s,ex,st,args,e,fn):
        d=fresh('DIR',Opq); st.assume(dpath(d)==s.S(ex,st,args[0])); st.ghost['_dirseen']=z3.Store(s.g(ex,st,'_dirseen'),d,emptyset(Str)); return T(d,fn['ret'])
    def f_dirfd(s,ex,st,args,e,fn):
        d=ex.load(st,args[0]); r=dfd(d.t); st.assume(r>=0,r<2**31); return T(r,'i32')
    def f_closedir(s,ex,st,args,e,fn):
        d=ex.load(st,args[0]).t; L=s.g(ex,st,'locked')
        if not(z3.is_const(d) and d.decl().name().startswith('DIR!') and not mentions(L,d)): st.ghost['locked']=z3.Store(L,d,FALSE)
        return s.failing(ex,st,'closedir')[1]
    def f_flock(s,ex,st,args,e,fn):
        fd=s.In(ex,st,args[0]); op=s.In(ex,st,args[1])
        if fd.decl().name()!='dirfd': raise Unsupported('flock of something else than a directory')
        d=fd.arg(0); L=s.g(ex,st,'locked'); ok,r=s.failing(ex,st,'flock')
        def eff(o):
            if not isint(o): raise Unsupported('flock operation')
            k=o.as_long()&11
            if k==2: return z3.Store(L,d,Or(Select(L,d),ok))
            if k==8: return z3.Store(L,d,FALSE)
            return Ite(ok,z3.Store(L,d,FALSE),L)       # a shared lock is not the exclusive one
        st.ghost['locked']=push(op,eff); return r
    # --- libarchive: an archive file is a sequence of entries; reading it may stop early with an error
    def f_archive_read_new(s,ex,st,args,e,fn): return T(fresh('archive',Opq),fn['ret'])
    def f_archive_read_open_filename(s,ex,st,args,e,fn):
        a=ex.load(st,args[0]); a=a.t if isinstance(a,(T,Raw)) else pack(a)
        st.ghost['_arpath']=z3.Store(s.g(ex,st,'_arpath'),a,s.S(ex,st,args[1])); st.ghost['_arpos']=z3.Store(s.g(ex,st,'_arpos'),a,z3.IntVal(0))
        return s.failing(ex,st,'aropen')[1]
    def f_archive_read_next_header(s,ex,st,args,e,fn):
        a=ex.load(st,args[0]); a=a.t if isinstance(a,(T,Raw)) else pack(a); A=s.g(ex,st,'_arpath'); P=s.g(ex,st,'_arpos'); n=arn(Select(A,a)); i=Select(P,a)
        r=fresh('arhdr',I); st.assume(r>=-30,r<=1,n>=0,z3.Implies(r==0,i<n),z3.Implies(r==1,i>=n))
        en=arent(Select(A,a),i); d=args[1]; d=d.lv if isinstance(d,Ptr) else d; o=ex.read(st,d)
        new=Ite(r==0,en,o.t) if isinstance(o,(T,Raw)) else en
        ex.write(st,d,T(new,o.ty) if isinstance(o,T) else T(en,strip_ref(d.ty) if d.ty else 'ptr(rec:archive_entry)'))
        st.ghost['_arerr']=Or(s.g(ex,st,'_arerr'),z3.And(r!=0,r!=1))
        st.ghost['_entpath']=z3.Store(s.g(ex,st,'_entpath'),en,epath(en)); st.ghost['_arpos']=Ite(r==0,z3.Store(P,a,i+1),P)
        return T(r,'i32')
    def ent(s,ex,st,v):
        v=ex.load(st,v); return v.t if isinstance(v,(T,Raw)) else pack(v)
    def f_archive_entry_pathname(s,ex,st,args,e,fn): return T(Select(s.g(ex,st,'_entpath'),s.ent(ex,st,args[0])),'ptr(char)')
    def f_archive_entry_set_pathname(s,ex,st,args,e,fn):
        st.ghost['_entpath']=z3.Store(s.g(ex,st,'_entpath'),s.ent(ex,st,args[0]),s.S(ex,st,args[1])); return VOID
    def f_archive_entry_mode(s,ex,st,args,e,fn):
        r=emode(s.ent(ex,st,args[0])); st.assume(r>=0,r<2**32); return T(r,'u32')
    def f_archive_read_extract(s,ex,st,args,e,fn):
        en=s.ent(ex,st,args[1]); p=Select(s.g(ex,st,'_entpath'),en); s.effect(ex,st,'extract',p,en)
        r=fresh('arext',I); st.assume(r>=-30,r<=1); st.ghost['wrote']=z3.Store(s.g(ex,st,'wrote'),p,TRUE)
        st.ghost['fs_ex']=z3.Store(s.g(ex,st,'fs_ex'),p,Or(r==0,fresh('partly',B))); st.ghost['extracted']=z3.Store(s.g(ex,st,'extracted'),en,TRUE)
        return T(r,'i32')
    def f_fread(s,ex,st,args,e,fn):
        n=s.In(ex,st,args[2]); r=fresh('nread',I); st.assume(r>=0,r<=n); b=args[0]; b=b.lv if isinstance(b,Ptr) else b
        if isinstance(b,LV): v=ex.read(st,b); ex.write(st,b,ex.frv(st,'readbuf',v.ty))
        return T(r,'u64')
    def f_fwrite(s,ex,st,args,e,fn):
        r=fresh('nwritten',I); st.assume(r>=0); return T(r,'u64')
    def f_readdir(s,ex,st,args,e,fn):
        # each call yields an entry of the directory; the end is reached only once all of them were yielded (reading a directory does not fail half way)
        d=ex.load(st,args[0]); d=d.t if isinstance(d,(T,Raw)) else pack(d); r=fresh('dirent',Opq); S=s.g(ex,st,'_dirseen'); D=Select(s.g(ex,st,'fs_dir'),dpath(d)); nm=z3.Function('d_name',Opq,Str)(r)
        v=Select(S,d); x=z3.Const('x!rd',Str); st.assume(z3.Implies(r!=NULLP,Select(D,nm)),z3.Implies(r==NULLP,z3.ForAll([x],z3.Implies(Select(D,x),Select(v,x)),patterns=[Select(D,x)])))
        st.ghost['_dirseen']=z3.Store(S,d,Ite(Eq(r,NULLP),v,z3.Store(v,nm,TRUE))); return T(r,fn['ret'])
    def f_getuid(s,ex,st,args,e,fn): return T(z3.Const('the_uid',I),'u32')
def ssub_(t,p,n):
    l=lit_of(t)
    if l is not None and isint(p) and isint(n) and p.as_long()<=len(l): return lit(l[p.as_long():p.as_long()+n.as_long()])
    if isint(p) and p.as_long()==0 and isint(n) and n.as_long()>=2**62: return t
    if isint(n) and n.as_long()==0: return lit('')
    if isint(n) and n.as_long()>=2**62: n=slen(t) if l is None else z3.IntVal(len(l))
    # tail of a concatenation with a literal head
    ps=parts(t)
    if len(ps)>1 and isint(p) and lit_of(ps[0]) is not None and p.as_long()<=len(lit_of(ps[0])) and n.eq(slen(t)):
        r=lit(lit_of(ps[0])[p.as_long():])
        for q in ps[1:]: r=cat(r,q)
        return r
    return ssub(t,p,n)
def schr_(c):
    if isint(c) and 0<c.as_long()<128: return lit(chr(c.as_long()))
    return schr(c)
def fresh_nz(st):
    r=fresh('nz',I); X.deffact(r,r!=0); X.deffact(r,z3.And(r>=-2**31,r<2**31)); return r
def is_f_emptyV(it): return it.V is not None and z3.is_K(it.V) and is_f(it.V.arg(0))
def isempty(S):
    if z3.is_K(S): return z3.BoolVal(is_f(S.arg(0)))
    return card(S)==0
def setop(f,srt,nm):
    """fresh set defined pointwise"""
    r=fresh(nm,srt); x=z3.Const('x!so',srt.domain())
    X.deffact(r,z3.ForAll([x],z3.Select(r,x)==f(x),patterns=[z3.Select(r,x)]))
    terms.DEFS[(r.decl().name(),None)]=lambda y:f(y)
    return r
PURE={'time','getpagesize','getenv','getpwuid','getgrgid','setlocale','bindtextdomain','textdomain','fclose','fflush','localtime','strftime','signal','sigaction','uname','statvfs','malloc','realloc','feof','strchr','memchr'}
LIB=Lib()
