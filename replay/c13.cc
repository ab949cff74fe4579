#include "world.h"
using namespace vp; using namespace gen;
static bool markedOnDisk(const std::string& R,const std::string& n){ std::string m="\n"+get(R+"var/lib/pkg/DB/"+n+"/META"); return m.find("\nd1\n")!=std::string::npos; }
void battery(){
  rule("histories of installs and upgrades (forced or not, with rules, the mark asked for or not before each) run by one command object or by several, some refused; the mark of every package in its record, in a database loaded afresh and in memory, after each step");
  int N=scale(120,1500);
  for(int it=0;it<N;it++){
    std::string R=newRoot(),A=fresh("a"),why; auto P=paths(70); static const char* NM[]={"p","q","r","p.lib"}; std::map<std::string,bool> mark; std::map<std::string,int> ver; std::string hist;
    if(coin(30)) put(R+"etc/pkgadd.conf",coin()?"INSTALL ^usr/.*$ NO\n":"UPGRADE ^etc/.*$ NO\nLDCONF ^usr/.*$ YES\n");
    int steps=2+rnd(5); bool one=coin(60); std::unique_ptr<pkgadd> a; bool pending=false;
    auto make=[&](){ a.reset(new pkgadd); bool d=a->m_dependency; quiet(*a,R); a->m_dependency=d; a->m_runPrePost=false; a->buildDatabase(true); pending=false; };
    { char* j=new char[sizeof(pkgadd)]; memset(j,0xff,sizeof(pkgadd)); pkgadd* x=new(j) pkgadd; if(x->m_dependency) fail("asked-for-by-accident","{\"a new command\":true}"); x->~pkgadd(); delete[] j; }
    make();
    for(int s=0;s<steps;s++){
      if(!one){ make(); }
      std::string n=NM[rnd(4)]; bool up=ver.count(n)&&coin(85); if(coin(5)) up=!up; bool force=coin(40),ask=coin(45); Spec q; q.name=n; q.version=std::to_string(s+1); for(auto& f:some(P,40)) q.files[f]=q.version; q.files["usr/only-"+n]="y"; if(coin(20)) q.extra={"Tdev","Rother1700000000"}; if(coin(10)) q.extra={"Dd1","d10","d"}; if(coin(10)) q.extra={"Aalias-of-"+n};
      std::string f=pack(A,q); a->m_packageArchiveName=f; a->m_upgrade=up; a->m_force=force; if(ask){ a->setDependency(); pending=true; }
      hist+=(hist.empty()?"":",")+std::string("[")+js(n)+","+js(up?"upgrade":"install")+","+(force?"\"forced\"":"\"\"")+","+(ask?"\"mark asked for\"":"\"\"")+"]"; std::string d="{\"one command\":"+std::string(one?"true":"false")+",\"steps\":["+hist+"]}"; start(d); if(it<2&&s==steps-1) sample(d); if(up&&s) ++nontrivial;
      bool asked=pending; bool threw=false; try{ a->run(); }catch(std::exception&){ threw=true; }
      (void)!chdir(scratch().c_str()); a->m_postInstallList.clear();
      if(threw){ make(); } else { bool w=up&&mark.count(n)?mark[n]:asked; pending=false; mark[n]=w; ver[n]=s;
        if(a->m_dependency) fail("request-leaks-to-the-next-package",d);
        if(a->m_listOfPackages[n].dependency()!=w) fail(w?"mark-lost-in-memory":"marked-by-accident-in-memory",d);
        if(a->checkDependency(n)!=w) fail("wrong-answer",d); }
      pkgdbh db("x"); quiet(db,R); db.buildDatabase(true);
      for(auto& m:mark){ bool isthis=m.first==n&&!threw; 
        if(!exists(R+"var/lib/pkg/DB/"+m.first+"/META")) { fail("record-gone",d); continue; }
        if(markedOnDisk(R,m.first)!=m.second) fail(std::string(m.second?"mark-lost":"marked-by-accident")+(isthis?"":"-on-another-package"),"{\"package\":"+js(m.first)+",\"case\":"+d+"}");
        if(db.m_listOfPackages[m.first].dependency()!=m.second) fail("wrong-mark-when-loaded","{\"package\":"+js(m.first)+",\"case\":"+d+"}"); }
      std::string M="\n"+get(R+"var/lib/pkg/DB/"+n+"/META"); if(!threw) for(auto& l:metaOf(q)) if(M.find("\n"+l+"\n")==std::string::npos) fail("record-line-lost","{\"line\":"+js(l)+",\"case\":"+d+"}");
      wipe(A); A=fresh("a");
    }
    a.reset(); wipe(R.substr(0,R.size()-1)); wipe(A);
  }
}
