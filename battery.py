"""Builds a property's replay battery from /repo's current sources (all objects of the product, real code) and runs it.

The battery is a bounded companion of the proof: it turns failed obligations into concrete failing inputs and exercises the
assumed contracts of the outside world.  It runs as an unprivileged user inside its own scratch directory; the destructive
calls of the linked code are intercepted (--wrap) and refuse any path outside that directory."""
import os, subprocess, hashlib, json, tempfile, shutil, sys, time, signal
HERE=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VP_REPO','/repo'); SRC=REPO+'/src'; BUILD=os.environ.get('VP_BUILD',HERE+'/build')
CXXF=['-O0','-g0','-std=c++17','-DNDEBUG','-D_GNU_SOURCE','-DPACKAGE_VERSION="3.5.93"','-D_LARGEFILE_SOURCE','-D_FILE_OFFSET_BITS=64','-pipe','-w']
WRAPS='remove unlink rmdir rename mkdir creat creat64 open open64 link symlink fsync flock fork waitpid execl getuid geteuid chdir chmod chown lchown utime fopen fopen64 archive_read_extract truncate mkdtemp opendir system'.split()
JOBS=int(os.environ.get('VP_JOBS','8'))
class NoBuild(Exception): pass
def sh(l): return subprocess.check_output(l,text=True).split()
def compile_all(MAINS,drv):
    os.makedirs(BUILD+'/obj',exist_ok=True)
    hdr=hashlib.sha256()
    for d in (SRC,HERE+'/replay'):
        for f in sorted(os.listdir(d)):
            if f.endswith('.h'): hdr.update(f.encode()+open(os.path.join(d,f),'rb').read())
    jobs=[]; objs=[]
    srcs=[os.path.join(SRC,f) for f in sorted(os.listdir(SRC)) if f.endswith('.cxx') and f not in MAINS]
    todo=srcs+[HERE+'/replay/common.cc',drv]
    for s in todo:
        fl=list(CXXF)
        if s.startswith(HERE): fl+=['-fno-access-control','-iquote',SRC,'-I',HERE+'/replay']
        k=hashlib.sha256(hdr.digest()+open(s,'rb').read()+' '.join(fl).encode()).hexdigest()[:24]
        o=BUILD+'/obj/%s-%s.o'%(os.path.basename(s),k); objs.append(o)
        if not os.path.exists(o): jobs.append((s,o,fl))
    jobs.sort(key=lambda j:-os.path.getsize(j[0])); running=[]; errs=[]
    while jobs or running:
        while jobs and len(running)<JOBS:
            s,o,fl=jobs.pop(0); t='%s.%d'%(o,os.getpid())
            running.append((subprocess.Popen(['g++','-c',s,'-o',t,'-iquote',SRC]+fl,stderr=subprocess.PIPE,text=True,cwd=SRC),s,o,t))
        p,s,o,t=running.pop(0); e=p.communicate()[1]
        if p.returncode==0: os.rename(t,o)
        else: errs.append('%s: %s'%(os.path.basename(s),e[-1500:]))
    if errs: raise NoBuild('\n'.join(errs))
    return objs
def build(pid,MAINS):
    drv=HERE+'/replay/%s.cc'%pid.lower()
    if not os.path.exists(drv): return None
    objs=compile_all(MAINS,drv)
    exe=BUILD+'/battery-%s.%d'%(pid,os.getpid())
    libs=sh(['pkg-config','--libs','libarchive'])+sh(['pkg-config','--libs','libcurl'])+['-lcrypto','-lssl','-lzstd']
    r=subprocess.run(['g++','-o',exe]+objs+['-Wl,--wrap='+w for w in WRAPS]+libs,stderr=subprocess.PIPE,text=True)
    if r.returncode: raise NoBuild('link: '+r.stderr[-2500:])
    return exe
def run(pid,MAINS,seed,tier):
    t0=time.time()
    try: exe=build(pid,MAINS)
    except NoBuild as e: return {'status':'unavailable','why':'the battery does not compile against the current tree: '+str(e)}
    if exe is None: return {'status':'none','why':'no battery for this property'}
    tb=time.time()-t0
    tmp=tempfile.mkdtemp(prefix='vp-%s-'%pid); os.chmod(tmp,0o755)
    try:
        shutil.copy(exe,tmp+'/battery'); os.chmod(tmp+'/battery',0o755); os.unlink(exe)
        scr=tmp+'/s'; os.mkdir(scr); os.chown(scr,65534,65534)
        env={'PATH':'/usr/bin:/bin','HOME':scr,'LC_ALL':'C','VP_SCRATCH':scr,'VP_SEED':str(seed),'VP_TIER':tier,'TMPDIR':scr}
        out=open(tmp+'/out','w'); errf=open(tmp+'/err','w')
        def pre():
            os.setpgid(0,0); os.setgroups([]); os.setgid(65534); os.setuid(65534); os.umask(0o022)
        try: p=subprocess.Popen([tmp+'/battery'],cwd=scr,env=env,stdout=out,stderr=errf,stdin=subprocess.DEVNULL,preexec_fn=pre)
        except Exception as e: return {'status':'unavailable','why':'cannot run unprivileged: %s'%e}
        limit=240 if tier=='quick' else 1500
        rc=None; seen=None; t1=since=time.time()
        while time.time()-t1<limit and time.time()-since<90:      # 90 s within one case: it does not finish
            try: rc=p.wait(2); break
            except subprocess.TimeoutExpired: pass
            try: st=os.stat(scr+'/.current'); now=(st.st_mtime_ns,st.st_size)
            except OSError: now=None
            if now!=seen or tier!='quick': seen=now; since=time.time()
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
        p.wait(); out.close(); errf.close()
        r={'status':'ok','fails':[],'samples':[],'build_s':round(tb,1),'run_s':round(time.time()-t0-tb,1),'how':'python3-vt check.py %s (VERIF_SEED=%s); source replay/%s.cc'%(pid,seed,pid.lower())}
        cur=None
        for l in open(tmp+'/out',errors='replace'):
            if not l.startswith('@'): continue
            tag,_,rest=l[1:].rstrip('\n').partition(' ')
            if tag=='FAIL':
                key,_,d=rest.partition(' '); r['fails'].append({'key':key,'case':d[:4000]})
            elif tag=='SAMPLE': r['samples'].append(rest[:600])
            elif tag=='CASES': a=rest.split(); r['cases']=int(a[0]); r['nontrivial']=int(a[1])
            elif tag=='RULE': r['rule']=rest
            elif tag=='SKIP': r.setdefault('skipped',[]).append(rest)
        try: cur=open(scr+'/.current',errors='replace').read()
        except OSError: cur=''
        if rc is None: r['fails'].append({'key':'hang','case':'the code did not finish on: '+cur[:3000]})
        elif rc==77: r['status']='unavailable'; r['why']=open(tmp+'/err',errors='replace').read()[-500:]
        elif rc!=0 and not r['fails']: r['fails'].append({'key':'crash','case':'the code ended abnormally (%s) on: %s'%(rc,cur[:3000]),'stderr':open(tmp+'/err',errors='replace').read()[-1500:]})
        if r['fails']: r['status']='failing'
        return r
    finally:
        subprocess.run(['chmod','-R','u+rwx',tmp],stderr=subprocess.DEVNULL); shutil.rmtree(tmp,ignore_errors=True)
        try: os.unlink(exe)
        except OSError: pass
