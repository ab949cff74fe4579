#include "world.h"
#include "upgrade.h"
using namespace vp; using namespace gen;
struct I { std::string ver,group; long build; bool autom; };
typedef std::set<std::string> S;
void battery(){
  rule("random installed sets, repository indexes and configured groups, with and without --root, --check, --size, --proceed, download-only and download-ready: what the upgrade schedules for deletion and for update must be exactly what the build dates, the automatic marks and the groups give; and after a real upgrade (archives in the depot) exactly the scheduled packages are gone or replaced, everything else is untouched");
  int N=scale(400,5000); bool can=true;
  for(int it=0;it<N&&can;it++){
    std::string top=newRoot(); bool alt=coin(30); std::string R=alt?top+"mnt/":top; if(alt){ mkdirs(R+"var/lib/pkg/DB"); mkdirs(R+"etc"); }
    std::map<std::string,I> w,repo; static const char* NM[]={"a","ab","b","p","p.lib","p.doc","q","q.doc","zz","gcc"}; int n=1+rnd(7); S groups; for(auto g:{"lib","doc","fr"}) if(coin(55)) groups.insert(g);
    bool up=it%2==0; // mostly up to date, so that the upgrade goes ahead by itself
    for(int i=0;i<n;i++){ std::string x=NM[rnd(10)]; size_t p=x.find('.'); w[x]={"1",p!=std::string::npos&&coin(85)?x.substr(p+1):"",1700000000+rnd(3),coin(40)}; }
    for(auto& x:w) if(coin(up?93:60)){ I e=x.second; if(coin(up?12:50)) e.build+=rnd(4)-1; if(coin(4)) e.build=0; repo[x.first]=e; }
    for(auto x:NM) if(coin(25)&&!w.count(x)){ std::string y=x; size_t p=y.find('.'); repo[x]={"1",p==std::string::npos?"":y.substr(p+1),1700000001,false}; }
    for(auto& x:w) for(auto g:{"lib","doc","fr"}) if(coin(x.second.group.empty()?10:35)&&!repo.count(x.first+"."+g)&&!w.count(x.first+"."+g)) repo[x.first+"."+g]={"1",g,1700000001,false};
    if(coin(10)) repo["a.fr"]={"1","fr",1700000001,false};
    bool check=coin(8),size=coin(8),proceed=coin(60),only=coin(10),ready=it%3!=0;
    std::string idx; std::map<std::string,std::string> content;
    for(auto& x:repo){ std::string fn=x.first+"1.cards.tar"; idx+="@"+x.first+".cards-1\n"; (void)fn; }
    idx.clear(); for(auto& x:repo){ Spec s; s.name=x.first; s.version="1"; s.build=x.second.build; s.files={{"usr/"+x.first,"new"}}; if(!x.second.group.empty()) s.extra={"g"+x.second.group}; if(!ready) pack(top+"depot/base",s); idx+="@"+x.first+"1.cards-.tar\nN"+x.first+"\nV1\nr1\ncbase\n"; if(x.second.build) idx+="B"+std::to_string(x.second.build)+"\n"; if(!x.second.group.empty()) idx+="g"+x.second.group+"\n"; idx+="\n"; if(!ready) rename((top+"depot/base/"+x.first+"1.cards.tar").c_str(),(top+"depot/base/"+x.first+"1.cards-.tar").c_str()); }
    put(top+"depot/base/.REPO",idx); { std::string c="version 12\ndir /depot/base\n"; for(auto& g:groups) c+="group "+g+"\n"; put(top+"etc/cards.conf",c); }
    std::map<std::string,std::string> before; for(auto& x:w){ std::string s="N"+x.first+"\nV1\nr1\nB"+std::to_string(x.second.build)+"\naany\ncbase\n"; if(!x.second.group.empty()) s+="g"+x.second.group+"\n"; if(x.second.autom) s+="d1\n"; put(R+"var/lib/pkg/DB/"+x.first+"/META",s); put(R+"var/lib/pkg/DB/"+x.first+"/files","usr/"+x.first+"\n"); put(R+"usr/"+x.first,"old"); before[x.first]=s; }
    if(alt){ put(top+"var/lib/pkg/DB/host/META","Nhost\nV1\nr1\nB1700000000\ncbase\nd1\n"); put(top+"var/lib/pkg/DB/host/files","usr/host\n"); put(top+"usr/host","host"); }
    std::string d="{\"installed\":{"; for(auto& x:w) d+=(d.back()=='{'?"":",")+js(x.first)+":"+js("built "+std::to_string(x.second.build)+(x.second.autom?" automatic":"")+(x.second.group.empty()?"":" group "+x.second.group)); d+="},\"repository\":{"; for(auto& x:repo) d+=(d.back()=='{'?"":",")+js(x.first)+":"+js("built "+std::to_string(x.second.build)); d+="},\"groups\":"+jl(groups)+",\"options\":"+js(std::string(alt?"--root ":"")+(check?"--check ":"")+(size?"--size ":"")+(proceed?"--proceed ":"")+(only?"--download-only ":"")+(ready?"--download-ready":""))+"}";
    start(d); if(it<3) sample(d);
    S del; std::set<std::pair<std::string,time_t>> upd; auto stale=[&](const std::string& x){ auto r=repo.find(x); if(r==repo.end()) return false; auto i=w.find(x); return !(r->second.build!=0&&i!=w.end()&&i->second.build>=r->second.build); };
    bool any=false; for(auto& x:w){ if(repo.count(x.first)) any=true; if(!repo.count(x.first)){ if(x.second.autom) del.insert(x.first); } else if(stale(x.first)) upd.insert({x.first,repo[x.first].build}); if(x.second.group.empty()) for(auto& g:groups) if(stale(x.first+"."+g)) upd.insert({x.first+"."+g,repo[x.first+"."+g].build}); }
    if(!del.empty()||!upd.empty()) ++nontrivial;
    int st=inRoot(top,[&]()->int{ std::string R=alt?"/mnt/":"/"; fakeUid=0; CardsArgumentParser ap; using A=CardsArgumentParser; if(alt) ap.m_setOptions[A::OPT_ROOT.id]="/mnt"; if(check) ap.m_setOptions[A::OPT_CHECK.id]=""; if(size) ap.m_setOptions[A::OPT_SIZE.id]=""; if(proceed) ap.m_setOptions[A::OPT_PROCEED.id]=""; if(only) ap.m_setOptions[A::OPT_DOWNLOAD_ONLY.id]=""; if(ready) ap.m_setOptions[A::OPT_DOWNLOAD_READY.id]="";
      std::ostringstream os; auto* ob=std::cout.rdbuf(os.rdbuf()); auto t=[&](const char* k,const std::string& x){ fail(k,"{\"what\":"+js(x)+",\"case\":"+d+"}"); };
      bool early=false; std::string err; 
      { try{ cards::upgrade u(ap,"/etc/cards.conf"); u.m_postInstallList.clear(); early=check||size||(u.m_diff.ratio()>20&&!proceed);
          if(early){ if(!u.m_ListOfPackagesToDelete.empty()||!u.m_ListOfPackagesToUpdate.empty()) t("scheduled-although-only-asked",""); }
          else { for(auto& x:u.m_ListOfPackagesToDelete) if(!del.count(x)) t("deletes",x+(w.count(x)&&!w[x].autom?" (installed on request)":"")); for(auto& x:del) if(!u.m_ListOfPackagesToDelete.count(x)) t("does-not-delete",x);
            for(auto& x:u.m_ListOfPackagesToUpdate) if(!upd.count(x)) t("updates",x.first+" "+std::to_string(x.second)); for(auto& x:upd) if(!u.m_ListOfPackagesToUpdate.count(x)) t("does-not-update",x.first); }
        }catch(std::exception& e){ err=e.what(); } }
      std::cout.rdbuf(ob); (void)!chdir("/");
      if(!err.empty()&&any&&!early) t("refused-without-reason",err);
      bool act=err.empty()&&!early&&!only&&!ready; std::map<std::string,long> nb; for(auto& x:upd) nb[x.first]=x.second;
      for(auto& x:w){ bool there=exists(R+"usr/"+x.first)&&exists(R+"var/lib/pkg/DB/"+x.first+"/META"); bool gone=!exists(R+"usr/"+x.first)&&!exists(R+"var/lib/pkg/DB/"+x.first+"/META"); bool dl=act&&del.count(x.first), up=act&&nb.count(x.first);
        if(dl){ if(!gone) t("not-removed",x.first); continue; } if(!there){ t("removed",x.first); continue; }
        if(up){ if(get(R+"usr/"+x.first)!="new") t("not-updated",x.first); } else { if(get(R+"usr/"+x.first)!="old"||get(R+"var/lib/pkg/DB/"+x.first+"/META")!=before[x.first]) t("touched",x.first); } }
      for(auto& x:repo) if(!w.count(x.first)){ bool there=exists(R+"usr/"+x.first); if(there!=(act&&nb.count(x.first))) t(there?"added":"not-added",x.first); }
      if(alt&&(get("/usr/host")!="host"||!exists("/var/lib/pkg/DB/host/META"))) t("outside-the-root","host");
      return 0; });
    if(WIFEXITED(st)&&WEXITSTATUS(st)==77){ skip("no user namespace available: an upgrade cannot be run"); can=false; }
    else if(st!=0) fail("crash","{\"status\":"+std::to_string(st)+",\"case\":"+d+"}");
    wipe(top.substr(0,top.size()-1));
  }
}
