#include "world.h"
using namespace vp; using namespace gen;
static std::string norm(std::string s){ size_t p; while((p=s.find("//"))!=std::string::npos) s.erase(p,1); return s; }
static bool lst(const std::string& p,struct stat& b){ std::string q=p; while(q.size()>1&&q.back()=='/') q.pop_back(); return lstat(q.c_str(),&b)==0; }
static std::string rdl(const std::string& p){ char b[4096]; std::string q=p; while(q.size()>1&&q.back()=='/') q.pop_back(); ssize_t n=readlink(q.c_str(),b,4096); return n<0?"":std::string(b,n); }
static bool equalf(const std::string& a,const std::string& b,bool isd){ struct stat x,y; if(!lst(a,x)||!lst(b,y)) return false; if(x.st_mode!=y.st_mode||x.st_uid!=y.st_uid||x.st_gid!=y.st_gid) return false; if(isd||S_ISDIR(x.st_mode)) return true; if(S_ISLNK(x.st_mode)) return rdl(a)==rdl(b); if(S_ISREG(x.st_mode)) return x.st_size==0||get(a)==get(b); return x.st_rdev==y.st_rdev; }
void battery(){
  rule("random packages (files of several sizes, empty files, directories, symbolic and hard links, in random order) unpacked over random existing trees (same or other content, mode, type), with random keep and exclusion lists, the root written with and without trailing slash, and extraction failures at every position: each write must go where the lists say, a rejected copy may go only when it equals what was kept, and nothing may stop the remaining entries");
  int N=scale(1500,20000); static const char* CT[]={"","x","old content","new content","other"};
  for(int it=0;it<N;it++){
    std::string R=fresh("u")+"/"; std::vector<std::string> ps=paths(45+rnd(40)); std::vector<Ent> es; std::string big(8000+rnd(9000),'b');
    for(auto& p:ps){ Ent e{p}; if(p.back()=='/'){ e.type=1; e.mode=coin(80)?0755:0700; } else { int k=rnd(12); if(k==0){ e.type=2; e.link=coin()?"a":"/nowhere"; e.mode=0777; } else if(k==1&&!es.empty()&&es[0].type==0){ e.type=3; e.link=es[0].path; } else { e.content=coin(6)?big:CT[rnd(5)]; e.mode=coin(75)?0644:coin()?0600:0755; } } es.push_back(e); }
    if(es.empty()) es.push_back({"a","x"}); if(coin(30)) for(size_t i=es.size()-1;i>0;i--) std::swap(es[i],es[rnd(i+1)]); for(auto& e:es) if(e.type==3) for(auto& f:es) { if(&f==&e){ e.type=0; e.content="x"; break; } if(f.path==e.link&&f.type==0) break; }
    // what is there already
    std::vector<std::string> ext; for(auto& e:es) if(coin(50)){ std::string f=R+e.path; struct stat b; if(lst(f,b)) continue; bool blocked=false; for(size_t i=R.size();i<f.size();i++) if(f[i]=='/'&&i+1<f.size()&&exists(f.substr(0,i))&&!isdir(f.substr(0,i))) blocked=true; if(blocked) continue;
        int k=rnd(12); mkdirs(R+parent(e.path)); if(e.type==1){ mkdirs(f); if(coin(25)) chmod(f.c_str(),0700); } else if(k==0&&e.type!=1){ mkdirs(f); } else if(k==1||(e.type==2&&coin(70))){ if(symlink(coin(60)&&e.type==2?e.link.c_str():"b",f.c_str())){} } else { put(f,coin(50)?e.content:CT[rnd(5)]); chmod(f.c_str(),coin(70)?e.mode:coin()?0640:0644); } ext.push_back(e.path); }
    if(coin(10)) put(R+"var/lib/pkg/rejected/usr/bin/a","earlier");
    std::set<std::string> keep,non; int kp=rnd(4)*30,np=rnd(3)*20; for(auto& e:es){ if(coin(kp)) keep.insert(e.path); if(coin(np)) non.insert(e.path); } if(coin(20)) keep.insert("not/there");
    std::string ar=fresh("p")+"/p.tar"; mkar(ar,es); int fe=coin(30)?1+rnd(es.size()):0;
    std::string d="{\"entries\":["; for(auto& e:es) d+=(d.back()=='['?"":",")+js(e.path+(e.type==2?" -> "+e.link:e.type==3?" = "+e.link:e.type==1?"":" ("+std::to_string(e.content.size())+" bytes, mode "+std::to_string(e.mode)+")")); d+="],\"existing\":"+jl(ext)+",\"keep\":"+jl(keep)+",\"exclude\":"+jl(non)+",\"failing extraction\":"+std::to_string(fe)+"}";
    start(d); if(it<2) sample(d); auto t=[&](const char* k,const std::string& x){ fail(k,"{\"what\":"+js(x)+",\"case\":"+d+"}"); };
    std::map<std::string,std::string> before; std::map<std::string,mode_t> bm; for(auto& e:es){ struct stat b; if(lst(R+e.path,b)){ bm[e.path]=b.st_mode; if(S_ISREG(b.st_mode)) before[e.path]=get(R+e.path); else if(S_ISLNK(b.st_mode)) before[e.path]=rdl(R+e.path); } }
    std::vector<const Ent*> todo; for(auto& e:es) if(!non.count(e.path)) todo.push_back(&e); size_t at=0; const Ent* cur=nullptr; std::map<std::string,bool> rejected; std::set<std::string> deleted; if(!ext.empty()&&!keep.empty()) ++nontrivial;
    char rb[4096]; std::string RR=realpath(R.c_str(),rb); std::string rej=RR+"/var/lib/pkg/rejected";
    reset(); if(fe) failAt["extract"]=fe;
    onEffect=[&](const Effect& e){ std::string p=norm(e.path);
      if(e.kind=="extract"){ at=vp::count["extract"]-1; if(at>=todo.size()){ t("extra-write",e.path); return; } cur=todo[at]; struct stat b; std::string own=norm(RR+"/"+cur->path); bool k=keep.count(cur->path)&&lst(own,b); rejected[cur->path]=k; std::string want=k?norm(rej+"/"+cur->path):own; if(p!=want) t(k?"kept-overwritten":"wrong-place",cur->path+" written at "+p+" instead of "+want); }
      else if(e.kind=="remove"||e.kind=="unlink"||e.kind=="rmdir"){ if(!cur){ t("deleted",p); return; } std::string rp=norm(rej+"/"+cur->path); auto cutd=[](std::string s){ while(s.size()>1&&s.back()=='/') s.pop_back(); return s; };
        if(cutd(p)==cutd(rp)){ if(!rejected[cur->path]) t("deleted",p); else if(!equalf(rp,RR+"/"+cur->path,cur->type==1)) t("rejected-copy-lost",cur->path+": the package's copy differs from what is kept and is deleted"); else deleted.insert(cur->path); }
        else if(p.compare(0,rej.size()+1,rej+"/")||!isdir(p)||cutd(rp).compare(0,p.size()+1,p+"/")) t("deleted",p); }
      else if(e.kind!="chdir"&&e.kind!="open"&&e.kind!="fopen") t("other-effect",e.kind+" "+e.path); };
    { pkgdbh db("t"); quiet(db,coin(70)?R:R.substr(0,R.size()-1)); db.m_postInstallList.clear(); std::ostringstream os; auto* ob=std::cout.rdbuf(os.rdbuf()); auto* eb=std::cerr.rdbuf(os.rdbuf()); recording=true; try{ db.installArchivePackage(ar,keep,non); }catch(std::exception& x){ recording=false; t("gave-up",x.what()); } recording=false; std::cout.rdbuf(ob); std::cerr.rdbuf(eb); (void)!chdir(scratch().c_str()); }
    at=vp::count["extract"]; if(at<todo.size()) t("not-written",todo[at]->path+" is neither excluded nor written");
    size_t xi=0; std::map<std::string,int> res; for(auto& e:effects) if(e.kind=="extract"&&xi<todo.size()) res[todo[xi++]->path]=e.result;
    for(auto& e:es){ std::string f=R+e.path; struct stat b; bool now=lst(f,b); 
      if(non.count(e.path)&&e.type!=1&&!bm.count(e.path)&&now&&!S_ISDIR(b.st_mode)) t("excluded-written",e.path);
      if(rejected.count(e.path)&&rejected[e.path]&&before.count(e.path)&&bm.count(e.path)){ if(!now||b.st_mode!=bm[e.path]||(S_ISREG(b.st_mode)?get(f):rdl(f))!=before[e.path]) t("kept-changed",e.path); }
      if(rejected.count(e.path)&&rejected[e.path]&&e.type==0&&res.count(e.path)&&res[e.path]==0&&bm.count(e.path)&&!(fe&&0)){ std::string rp=rej+"/"+e.path; struct stat c; bool there=lst(rp,c); if(!there&&!deleted.count(e.path)) t("rejected-copy-missing",e.path); } }
    reset(); wipe(R.substr(0,R.size()-1)); wipe(ar.substr(0,ar.rfind('/')));
  }
}
