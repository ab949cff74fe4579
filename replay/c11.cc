#include "world.h"
using namespace vp; using namespace gen;
static bool lockedByOther(const std::string& R,bool anyLock=false){ int fd=open((R+"var/lib/pkg/DB").c_str(),O_RDONLY|O_DIRECTORY); if(fd<0) return false; int r=flock(fd,(anyLock?LOCK_EX:LOCK_SH)|LOCK_NB); bool held=r==-1&&errno==EWOULDBLOCK; close(fd); return held; }
static int script(const std::string& p){ std::string b=p.substr(p.rfind('/')+1); return b==".PRE"||b==".POST"; }
void battery(){
  rule("install, upgrade (forced or not) and removal of packages with shared files, rules and configuration directories on a scratch root; the lock probed from a second descriptor at every change; the lock refused by another holder or failing, calls failing at every point; non-trivial: several files change");
  int N=scale(60,800);
  for(int it=0;it<N;it++){
    std::string R=newRoot(),A=fresh("a"),why; auto P=paths(80);
    auto mk=[&](const char* n,const char* v){ Spec s; s.name=n; s.version=v; for(auto& f:some(P,60)) s.files[f]=v+f; s.files[std::string("usr/only-")+n+v]="y"; return s; };
    Spec p1=mk("p","1"),p2=mk("p","2"),q=mk("q","1"); if(coin(40)) put(R+"etc/pkgadd.conf",coin()?"UPGRADE ^etc/.*$ NO\n":"INSTALL ^usr/lib/.*$ NO\n");
    std::string f1=pack(A,p1),f2=pack(A,p2),fq=pack(A,q);
    if(coin(70)&&add(R,fq,{},why)) { fail("raised","{\"what\":"+js(why)+"}"); }
    int mode=rnd(5); bool needs=mode>=1; if(needs&&add(R,f1,{false,true},why)) fail("raised","{\"what\":"+js(why)+"}");
    // 0 install, 1 upgrade forced, 2 removal, 3 upgrade forced, 4 removal
    std::string desc="{\"operation\":"+js(mode==0?"install":mode%2?"upgrade":"remove")+",\"old\":"+specs(p1)+",\"new\":"+specs(p2)+",\"other\":"+specs(q)+"}"; start(desc); if(it<2) sample(desc);
    auto before=shot(R); long changes=0; int holders=0;
    auto go=[&](){ return mode==0?add(R,f1,{false,true},why):mode%2?add(R,f2,{true,true},why):del(R,"p",false,why); };
    auto watch=[&](const Effect& e){ if(e.kind=="chdir"||e.kind=="fsync") return; bool r=recording; recording=false; 
      if(e.kind!="flock"){ ++changes; std::string p=e.path; if(p.empty()||p[0]!='/') p=R+p; if(!script(e.path)&&p.compare(0,R.size()-1,R,0,R.size()-1)==0&&!lockedByOther(R)) fail("changed-without-the-lock","{\"call\":"+js(e.kind+" "+e.path)+",\"case\":"+desc+"}"); }
      recording=r; };
    int k=rnd(5);
    if(k==0){ // somebody else holds the lock
      int fd=open((R+"var/lib/pkg/DB").c_str(),O_RDONLY|O_DIRECTORY); flock(fd,coin()?LOCK_EX:LOCK_SH); reset(); recording=true; int rc=go(); recording=false; close(fd);
      if(rc==0) fail("ran-while-locked",desc); if(shot(R)!=before) fail("changed-while-locked",desc); if(lockedByOther(R,true)) fail("lock-kept",desc);
    } else if(k==1){ // the lock cannot be had
      reset(); flockFail=coin()?EWOULDBLOCK:coin()?ENOLCK:EINTR; recording=true; int rc=go(); recording=false; reset();
      if(rc==0) fail("lock-assumed",desc); if(shot(R)!=before) fail("changed-without-a-lock",desc);
    } else if(k==2){ // something fails on the way
      reset(); static const char* K[]={"rename","creat","fsync","mkdir","remove","unlink","extract","open_w"}; const char* K1=K[rnd(8)]; failAt[K1]=1+rnd(3); onEffect=watch; recording=true; go(); recording=false; onEffect=nullptr; failAt.clear();
      if(lockedByOther(R,true)) fail("lock-kept-after-error",desc);
    } else { reset(); onEffect=watch; recording=true; int rc=go(); recording=false; onEffect=nullptr; if(rc) fail("raised","{\"what\":"+js(why)+",\"case\":"+desc+"}"); if(lockedByOther(R,true)) fail("lock-kept",desc); if(changes>3) ++nontrivial; 
      if(mode==0||mode%2){ Spec& s=mode==0?p1:p2; if(!exists(R+"usr/only-p"+s.version)||!exists(R+"var/lib/pkg/DB/p/files")) fail("not-installed",desc); } else if(exists(R+"var/lib/pkg/DB/p/files")) fail("record-kept",desc); }
    reset(); wipe(R.substr(0,R.size()-1)); wipe(A);
  }
  { // the lock itself
    for(int i=0;i<2;i++){ std::string R=newRoot(); std::string d="{\"lock\":"+js(i?"shared":"exclusive")+"}"; start(d); { cards::lock L(R,i==0); if(!lockedByOther(R,i==1)) fail("not-locked",d); if(i==0){ bool t=false; try{ cards::lock M(R,true); }catch(std::exception&){ t=true; } if(!t) fail("locked-twice",d); } } if(lockedByOther(R,true)) fail("lock-kept",d); { bool t=false; try{ cards::lock L(R+"none/",true); }catch(std::exception&){ t=true; } if(!t) fail("locked-nothing",d); } }
  }
}
