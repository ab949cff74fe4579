#include "gen.h"
#include "process.h"
using namespace vp;
static int lg=-1;
static int runp(int how,const std::string& a,const std::string& b){ process p(a,b,how&1?lg:0); return how&2?p.executeShell():p.execute(); }
static const char* W[]={"direct","direct with log","shell","shell with log"};
void battery(){
  rule("four ways of running a child; every wait status a kernel can report (exits, signals, core dumps), failing fork, failing wait, and real children: every exit code, several signals, a missing program; non-trivial: not a plain exit with zero");
  std::string d=fresh("p"); lg=open((d+"/log").c_str(),O_CREAT|O_RDWR,0644);
  for(int how=0;how<4;how++){
    fakeFork=-1; fakeWait=0;
    std::vector<int> sts; for(int c=0;c<256;c++) sts.push_back(c<<8); for(int g=1;g<127;g++){ sts.push_back(g); sts.push_back(g|128); }
    for(int st:sts){ ++cases; fakeStatus=st; int r=runp(how,"/bin/true","a b"); if(st) ++nontrivial;
      bool ok=WIFEXITED(st); std::string k=std::string("{\"mode\":\"")+W[how]+"\",\"wait_status\":"+std::to_string(st)+",\"returned\":"+std::to_string(r)+"}"; start(k);
      if(ok? r!=WEXITSTATUS(st): r==0) fail(ok?"exit-status-changed":"killed-child-is-success",k); }
    std::string k=std::string("{\"mode\":\"")+W[how]+"\"}"; fakeStatus=0; start(k);
    fakeFork=-2; ++cases; if(runp(how,"/bin/true","")==0) fail("failed-fork-is-success",k); fakeFork=-1; fakeWait=1; ++cases; if(runp(how,"/bin/true","")==0) fail("failed-wait-is-success",k); fakeWait=0; nontrivial+=2;
    fakeFork=1; realExec=true;
    int codes[]={0,1,2,3,7,42,64,126,127,128,130,137,200,254,255}; for(int c:codes){ std::string f=d+"/s"+std::to_string(c); put(f,"exit "+std::to_string(c)+"\n"); ++cases; if(c) ++nontrivial; std::string q=k+" exit "+std::to_string(c); start(q); int r=runp(how,"/bin/sh",f); if(r!=c) fail("real-exit-status-changed","{\"mode\":\""+std::string(W[how])+"\",\"exit\":"+std::to_string(c)+",\"returned\":"+std::to_string(r)+"}"); }
    for(const char* s:{"KILL","TERM","SEGV"}){ std::string f=d+"/k"+s; put(f,std::string("kill -")+s+" $$\nsleep 5\n"); ++cases; ++nontrivial; start(k+s); int r=runp(how,how&2?"exec /bin/sh":"/bin/sh",f); if(r==0) fail("real-killed-child-is-success","{\"mode\":\""+std::string(W[how])+"\",\"signal\":"+js(s)+"}"); }
    ++cases; start(k+" missing"); if(runp(how,d+"/no-such-program","x")==0) fail("missing-program-is-success",k);
    { std::string f=d+"/o"; put(f,"echo out $1 $2 > "+d+"/seen\n"); wipe(d+"/seen"); int r=runp(how,"/bin/sh",f+" A B"); ++cases; if(r||get(d+"/seen")!="out A B\n") fail("arguments-changed",k); }
    fakeFork=-1; realExec=false;
  }
  sample("{\"mode\":\"shell\",\"wait_status\":9}");
}
