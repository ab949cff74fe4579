#include "gen.h"
#include <sys/resource.h>
#include <signal.h>
using namespace vp; using namespace gen;
static std::string body(const std::set<std::string>& s){ std::string r; for(auto& f:s) r+=f+"\n"; return r; }
void battery(){
  rule("random old and new file lists (also none yet), every failing system call and every crash point of the update (process ended before the n-th call), a hard link to the old record; non-trivial: the lists differ and a call fails or the process ends");
  int N=scale(60,800);
  for(int it=0;it<N;it++){
    std::string root=fresh("r"),R=root+"/"; std::string nm=coin()?"p":"lib-x.y"; std::string D=R+"var/lib/pkg/DB/",rec=D+nm+"/files";
    auto P=paths(80); std::set<std::string> o=some(P,50),n=some(P,60); if(n.empty()) n.insert("z"); if(coin(10)) for(int i=0;i<3000;i++) n.insert("usr/share/long-name-"+std::to_string(i)+std::string(40,'x'));
    bool had=coin(75); mkdirs(D); 
    std::string other=D+"other/files"; put(other,"x\n");
    auto prep=[&]{ wipe(D+nm); mkdirs(D+nm); if(had) put(rec,body(o)); else if(coin(50)) wipe(D+nm); };
    auto st=[&](const std::string& w){ std::string d="{\"package\":"+js(nm)+",\"old\":"+(had?jl(o):std::string("null"))+",\"new\":"+(n.size()>50?std::string("\"3000 files\""):jl(n))+","+w+"}"; start(d); return d; };
    auto call=[&](pkgdbh& db){ quiet(db,R); cards::db i; i.files=n; db.m_listOfPackages[nm].files=o; db.addPackageFilesRefsToDB(nm,i); };
    auto isold=[&]{ return had?(exists(rec)&&get(rec)==body(o)):!exists(rec); };
    auto isnew=[&]{ return exists(rec)&&get(rec)==body(n); };
    // plain run
    prep(); std::string d=st("\"fault\":\"none\""); if(it<2&&n.size()<50) sample(d); long neff=0;
    if(had) (void)!link(rec.c_str(),(R+"oldlink").c_str());
    { pkgdbh db("pkgadd"); bool synced=false,raised=false; reset();
      onEffect=[&](const Effect& e){ ++neff; Effect x=e; bool r=recording; recording=false; if(x.kind=="fsync"&&x.path.compare(0,D.size(),D)==0&&x.path!=rec&&get(x.path)==body(n)) synced=true; if(x.kind=="rename"&&x.path2==rec&&!synced) fail("renamed-before-sync",d); if(!isold()&&!isnew()) fail("partial-record","{\"before\":"+js(x.kind)+",\"case\":"+d+"}"); recording=r; };
      recording=true; try{ call(db); }catch(...){ raised=true; } recording=false; onEffect=nullptr;
      if(raised) fail("raised",d); if(!isnew()) fail("record-wrong",d); if(!synced) fail("never-synced",d);
      if(had&&get(R+"oldlink")!=body(o)) fail("record-written-in-place",d);
      if(get(other)!="x\n") fail("other-record-changed",d);
      auto t=tree(D+nm); if(t!=std::set<std::string>{"files"}) fail("left-over","{\"tree\":"+jl(t)+",\"case\":"+d+"}");
      if(db.m_listOfPackages[nm].files!=n) fail("memory-not-updated",d); }
    wipe(R+"oldlink");
    if(o!=n) ++nontrivial;
    // failing calls
    for(std::string k:{"creat","open_w","fsync","rename"}) { prep(); d=st("\"fault\":"+js(k)); pkgdbh db("pkgadd"); reset(); failAt[k]=1; recording=true; bool raised=false; try{ call(db); }catch(...){ raised=true; } recording=false; bool hit=failAt[k]==0; failAt.clear();
      if(hit&&!raised) fail("no-error",d); if(hit&&!isold()) fail("previous-record-lost",d); if(!hit&&!isnew()) fail("record-wrong",d); if(get(other)!="x\n") fail("other-record-changed",d); }
    // the disk is full
    if(n.size()>50||coin(40)){ prep(); d=st("\"fault\":\"write\""); int s=inChild([&]()->int{ signal(SIGXFSZ,SIG_IGN); struct rlimit r={(rlim_t)(body(n).size()/2),(rlim_t)(body(n).size()/2)}; setrlimit(RLIMIT_FSIZE,&r); pkgdbh db("pkgadd"); try{ call(db); }catch(...){ _exit(7);} return 0; }); 
      if(!WIFEXITED(s)||WEXITSTATUS(s)!=7) fail("no-error",d); if(!isold()) fail("previous-record-lost",d); }
    // crash points
    for(int k=1;k<=neff;k++){ prep(); d=st("\"crash before call\":"+std::to_string(k)); inChild([&]()->int{ pkgdbh db("pkgadd"); reset(); crashAt=k; recording=true; try{ call(db); }catch(...){} return 0; }); if(!isold()&&!isnew()) fail("partial-record-after-crash",d); }
    wipe(root);
  }
}
