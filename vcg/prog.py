"""Loads the mechanically extracted ASTs (astx) of /repo's current sources."""
import json, os, re, subprocess, hashlib, sys
from core import RECORDS, ENUMS
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VP_REPO','/repo'); SRC=REPO+'/src'
BUILD=os.environ.get('VP_BUILD',os.path.join(os.path.dirname(HERE),'build'))
ASTX=os.path.join(BUILD,'astx')
FLAGS=['-resource-dir','/usr/lib/llvm-18/lib/clang/18','-std=c++17','-D_GNU_SOURCE','-DNDEBUG','-DPACKAGE_VERSION="1"']
def build_astx():
    src=os.path.join(HERE,'astx.cc'); h=hashlib.sha256(open(src,'rb').read()).hexdigest(); tag=ASTX+'.sum'
    if os.path.exists(ASTX) and os.path.exists(tag) and open(tag).read()==h: return
    os.makedirs(BUILD,exist_ok=True); tmp='%s.%d'%(ASTX,os.getpid())
    cxx=subprocess.check_output(['llvm-config-18','--cxxflags'],text=True).split()
    subprocess.check_call(['clang++','-O1']+cxx+['-std=c++17','-fno-rtti',src,'-o',tmp,'/usr/lib/llvm-18/lib/libclang-cpp.so.18.1','/usr/lib/llvm-18/lib/libLLVM-18.so'])
    os.rename(tmp,ASTX); open(tag,'w').write(h)

class Program:
    def __init__(self):
        self.by_sig={}; self.by_name={}; self.lambdas={}; self.files=[]; self.globals={}; self.loaded=set(); self.overriders={}
    def load(self,*files):
        todo=[f for f in files if f not in self.loaded]
        procs=[]
        for f in todo:
            self.loaded.add(f)
            procs.append((f,subprocess.Popen([ASTX,SRC,f]+FLAGS,cwd=SRC,stdout=subprocess.PIPE,stderr=subprocess.PIPE)))
        outs=[]
        import threading
        res={}
        def rd(f,p): res[f]=p.communicate()
        ths=[threading.Thread(target=rd,args=a) for a in procs]
        for t in ths: t.start()
        for t in ths: t.join()
        for f,p in procs:
            o,e=res[f]
            if p.returncode!=0 or not o.strip(): raise RuntimeError('astx failed on %s: %s'%(f,e.decode()[-2000:]))
            self.add(f,json.loads(o))
    def add(self,tu,d):
        self.files.append(tu)
        def ns(n):
            if isinstance(n,dict):
                k=n.get('k')
                if 'id' in n and isinstance(n['id'],int):
                    if n.get('global') and 'qn' in n: n['id']='g:'+n['qn']
                    else: n['id']='%s:%d'%(tu,n['id'])
                if 'fid' in n: n['fid']='%s:%d'%(tu,n['fid'])
                for v in n.values():
                    if isinstance(v,(dict,list)): ns(v)
            elif isinstance(n,list):
                for v in n: ns(v)
        ns(d['functions'])
        for r in d['records']:
            if r['name'] not in RECORDS: RECORDS[r['name']]=r
        for e in d['enums']:
            if e['name']: ENUMS[e['name']]=e['values']
        for f in d['functions']:
            f['tu']=tu
            if f.get('body') is None: continue
            if f['sig'] in self.by_sig: continue
            self.by_sig[f['sig']]=f
            self.by_name.setdefault(f['name'],[]).append(f)
            for o in f.get('overrides',[]): self.overriders.setdefault(o,[]).append(f)
    def find(self,sig):
        return self.by_sig.get(sig)
    def has_lambda(self,f): return False
def clang_src_hash():
    h=hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith(('.cxx','.h')): h.update(f.encode()); h.update(open(os.path.join(SRC,f),'rb').read())
    return h.hexdigest()

def strip_targs(name):
    """drop <...> template argument lists from a qualified name, keeping operator< etc."""
    m=re.search(r'::operator\W*.*$',name) or re.match(r'^operator\W.*$',name)
    tail=''
    if m and not re.match(r'::operator\s*\w',m.group(0)):
        tail=m.group(0); name=name[:m.start()]
        # operator suffix itself may belong to the innermost name only
    out='';d=0
    for c in name:
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: out+=c
    if '::operator' in tail[1:]:
        tail=tail[tail.rindex('::operator'):]
    return (out+tail).replace('std::__cxx11::','std::')
