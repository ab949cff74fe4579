#include "world.h"
#include "diff.h"
using namespace vp; using namespace gen;
struct I { std::string ver; int rel; long build; bool autom; };
// the sections of the printed report: title -> (number, names)
static std::map<std::string,std::pair<long,std::set<std::string>>> sections(const std::string& t){ std::map<std::string,std::pair<long,std::set<std::string>>> r; std::string cur; std::istringstream is(t); std::string l;
  static const char* H[]={"Number of Packages","Unchanged Packages","Added packages","Out of Date Packages","Rebuild Packages","Obsoletes Packages","Conflict Packages","Unmaintained Packages"};
  while(std::getline(is,l)){ bool h=false; for(auto x:H) if(l.compare(0,strlen(x),x)==0){ cur=x; size_t p=l.rfind(':'); r[cur].first=p==std::string::npos?-1:atol(l.c_str()+p+1); h=true; } if(h) continue; if(l.empty()){ cur=""; continue; } if(cur.empty()) continue; std::string n=l.substr(0,l.find(' ')); if(n=="Name:") continue; r[cur].second.insert(n); } return r; }
void battery(){
  rule("random installed sets (build dates, versions, releases, automatic marks, alias names that are also repository names) and repository indexes (packages missing, older, equal, newer, without a build date): the report must hold every installed package once, in the class the build dates, versions and marks give, count each class, and print the same numbers and names");
  int N=scale(400,6000); bool can=true;
  for(int it=0;it<N&&can;it++){
    std::string R=newRoot(); std::map<std::string,I> w; std::map<std::string,I> repo; static const char* NM[]={"a","ab","b","p","p.lib","q","zz","gcc","x1","x2"}; static const char* VE[]={"1","2","1-2","1.0","10"};
    int n=rnd(9); for(int i=0;i<n;i++){ std::string x=NM[rnd(10)]; w[x]={VE[rnd(5)],1+rnd(3),1700000000+rnd(4),coin(40)}; }
    long none=coin(25);
    for(auto& x:w) if(!coin(30)){ I e=x.second; if(coin(50)) e.build+=rnd(3)-1; if(coin(30)) e.ver=VE[rnd(5)]; if(coin(20)) e.rel=1+rnd(3); if(none&&coin(20)) e.build=0; repo[x.first]=e; }
    for(auto x:NM) if(coin(20)&&!w.count(x)) repo[x]={"1",1,1700000001,false};
    std::string al; if(coin(30)&&!w.empty()) al=NM[rnd(10)];
    std::map<std::string,std::string> idx; for(auto& x:repo){ std::string c=x.first.size()%2?"cli":"base"; std::string s="@"+x.first+".cards-1.tar.xz\nN"+x.first+"\nV"+x.second.ver+"\nr"+std::to_string(x.second.rel)+"\nc"+c+"\nS100\ni50\n"; if(x.second.build) s+="B"+std::to_string(x.second.build)+"\n"; idx[c]+=s+"\n"; }
    for(auto c:{"base","cli"}) put(R+"depot/"+c+"/.REPO",idx[c]);
    put(R+"etc/cards.conf","version 12\ndir /depot/base\ndir /depot/cli\n");
    for(auto& x:w){ std::string s="N"+x.first+"\nV"+x.second.ver+"\nr"+std::to_string(x.second.rel)+"\nB"+std::to_string(x.second.build)+"\naany\ncbase\nS7\n"; if(x.second.autom) s+="d1\n"; if(!al.empty()&&x.first==w.begin()->first&&!w.count(al)) s+="A"+al+"\n"; put(R+"var/lib/pkg/DB/"+x.first+"/META",s); put(R+"var/lib/pkg/DB/"+x.first+"/files","usr/"+x.first+"\n"); }
    std::string d="{\"installed\":{"; for(auto& x:w) d+=(d.back()=='{'?"":",")+js(x.first)+":"+js(x.second.ver+"-"+std::to_string(x.second.rel)+" built "+std::to_string(x.second.build)+(x.second.autom?" automatic":"")); d+="},\"repository\":{"; for(auto& x:repo) d+=(d.back()=='{'?"":",")+js(x.first)+":"+js(x.second.ver+"-"+std::to_string(x.second.rel)+" built "+std::to_string(x.second.build)); d+="}}";
    start(d); if(it<3) sample(d); if(w.size()>2) ++nontrivial;
    std::map<std::string,int> want; std::map<int,unsigned> cnt; std::map<int,std::set<std::string>> names;
    for(auto& x:w){ int c; auto r=repo.find(x.first); if(r==repo.end()) c=x.second.autom?cards::STATUS_ENUM_UPG_OBSOLET:cards::STATUS_ENUM_UPG_UNMAINT; else if(r->second.build!=0&&x.second.build>=r->second.build) c=cards::STATUS_ENUM_UPG_OK; else c=(r->second.ver==x.second.ver&&r->second.rel==x.second.rel)?cards::STATUS_ENUM_UPG_NEWBUILD:cards::STATUS_ENUM_UPG_OUTOFDATE; want[x.first]=c; ++cnt[c]; names[c].insert(x.first); }
    int st=inRoot(R,[&]()->int{ fakeUid=1000; CardsArgumentParser ap; std::ostringstream os; auto* ob=std::cout.rdbuf(os.rdbuf());
      { cards::diff f(ap,"/etc/cards.conf"); f.m_postInstallList.clear(); auto t=[&](const char* k,const std::string& x){ fail(k,"{\"what\":"+js(x)+",\"case\":"+d+"}"); };
        using namespace cards; static const char* NS[]={"unchanged","unmaintained","obsolete","replace","conflict","out of date","new build","new"};
        for(auto& x:want){ auto i=f.m_listOfPackagesToDeal.find(x.first); if(i==f.m_listOfPackagesToDeal.end()) t("not-classified",x.first); else if(i->second.status!=x.second) t("wrong-class",x.first+" is "+NS[i->second.status]+", should be "+NS[x.second]); }
        for(auto& i:f.m_listOfPackagesToDeal) if(!want.count(i.first)) t("not-installed",i.first);
        struct { const char* n; unsigned got,want; } C[]={{"unchanged",f.packagesOK(),cnt[STATUS_ENUM_UPG_OK]},{"new build",f.packagesNewBuild(),cnt[STATUS_ENUM_UPG_NEWBUILD]},{"out of date",f.packagesOutOfDate(),cnt[STATUS_ENUM_UPG_OUTOFDATE]},{"obsolete",f.packagesObsolet(),cnt[STATUS_ENUM_UPG_OBSOLET]},{"unmaintained",f.packagesUnMaint(),cnt[STATUS_ENUM_UPG_UNMAINT]},{"conflict",f.packagesConflict(),0},{"replace",f.packagesReplace(),0},{"pending changes",f.size(),(unsigned)(want.size()-cnt[STATUS_ENUM_UPG_OK])}};
        for(auto& c:C) if(c.got!=c.want) t("wrong-count",std::string(c.n)+": "+std::to_string(c.got)+" instead of "+std::to_string(c.want));
        if(f.size()>0){ os.str(""); f.showInfo(true); auto S=sections(os.str()); struct { const char* h; int c; bool nm; } Q[]={{"Unchanged Packages",STATUS_ENUM_UPG_OK,false},{"Out of Date Packages",STATUS_ENUM_UPG_OUTOFDATE,true},{"Rebuild Packages",STATUS_ENUM_UPG_NEWBUILD,true},{"Obsoletes Packages",STATUS_ENUM_UPG_OBSOLET,true},{"Unmaintained Packages",STATUS_ENUM_UPG_UNMAINT,true}};
          for(auto& q:Q){ auto& s=S[q.h]; if(s.first!=(long)cnt[q.c]) t("printed-count",std::string(q.h)+": "+std::to_string(s.first)); if(q.nm&&s.second!=names[q.c]) t("printed-names",q.h); } } }
      std::cout.rdbuf(ob); return 0; });
    if(WIFEXITED(st)&&WEXITSTATUS(st)==77){ skip("no user namespace available: the report of a scratch installation cannot be computed"); can=false; }
    else if(st!=0) fail("crash","{\"status\":"+std::to_string(st)+",\"case\":"+d+"}");
    wipe(R.substr(0,R.size()-1));
  }
}
