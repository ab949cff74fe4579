#include "world.h"
using namespace vp; using namespace gen;
typedef std::map<std::string,std::set<std::string>> G;
void battery(){
  rule("random dependency graphs over packages marked or not (chains, cycles, self dependencies, diamonds, dependencies on aliases and on packages that are not installed, names that begin alike), read from records on disk; long chains and long cycles; non-trivial: some package is needed only through another");
  int N=scale(400,6000);
  for(int it=0;it<N;it++){
    std::string R=newRoot(); int n=1+rnd(it%50==0?120:9); std::vector<std::string> nm; std::map<std::string,bool> dep; G g; std::map<std::string,std::string> alias; std::set<std::string> inst;
    for(int i=0;i<n;i++){ static const char* S[]={"p","p.lib","p-x","lib","a","Rp","d1","p1","zz","q","q.devel"}; std::string x=i<11&&coin(80)?S[i]:"n"+std::to_string(i); nm.push_back(x); inst.insert(x); }
    std::vector<std::string> pool=nm; pool.push_back("not-here"); for(auto& x:nm) if(coin(20)){ std::string a="al-"+x; alias[a]=x; pool.push_back(a); }
    if(coin(15)&&n>1) alias[nm[0]]=nm[0];
    bool chain=n>20||coin(15);
    for(size_t i=0;i<nm.size();i++){ dep[nm[i]]=coin(chain?(i?100:0):65); std::set<std::string> d; if(chain){ d.insert(nm[(i+1)%n]); if(coin(20)) d.insert(nm[i]); } else { int k=rnd(4); while(k--) d.insert(pool[rnd(pool.size())]); } g[nm[i]]=d;
      std::string m="N"+nm[i]+"\nV1\nr1\nB1700000000\n"; for(auto& x:d) m+="R"+x+"1700000000\n"; for(auto& a:alias) if(a.second==nm[i]&&a.first!=nm[i]) m+="A"+a.first+"\n"; if(coin(20)) m+="DRp1700000000\n"; if(dep[nm[i]]) m+="d1\n"; else if(coin(20)) m+="Dd1\n"; if(coin(20)) m.pop_back();
      put(R+"var/lib/pkg/DB/"+nm[i]+"/META",m); put(R+"var/lib/pkg/DB/"+nm[i]+"/files","usr/"+nm[i]+"\n"); }
    std::set<std::string> want,todo; for(auto& x:nm) if(!dep[x]) todo.insert(x); size_t man=todo.size();
    while(!todo.empty()){ std::string x=*todo.begin(); todo.erase(x); if(!inst.count(x)&&alias.count(x)) x=alias[x]; if(!want.insert(x).second) continue; for(auto& y:g[x]) todo.insert(y); }
    std::string d="{"; for(auto& x:nm) d+=(d.size()>1?",":"")+js(x+(dep[x]?" (automatic)":""))+":"+jl(g[x]); d+="}"; start(d); if(it<2) sample(d); if(want.size()>man) ++nontrivial;
    { pkgrm a("pkgrm"); quiet(a,R); a.buildDatabase(coin()); a.getListOfManInstalledPackages();
      for(auto& x:want) if(!a.m_listofDependencies.count(x)) fail(inst.count(x)?"needed-package-not-found":"needed-name-not-found","{\"package\":"+js(x)+",\"graph\":"+d+"}");
      for(auto& x:a.m_listofDependencies) if(!want.count(x)) fail("not-needed","{\"package\":"+js(x)+",\"graph\":"+d+"}");
      for(auto& x:nm) if(a.m_listOfManInstalledPackages.count(x)==(size_t)dep[x]) fail("wrong-manual-packages","{\"package\":"+js(x)+",\"graph\":"+d+"}"); 
      if(a.m_listOfManInstalledPackages.size()!=man) fail("wrong-manual-packages",d); }
    if(it%5==0&&n>1){ // a package is removed first by the same command
      std::string x=nm[rnd(n)]; pkgrm a("pkgrm"); quiet(a,R); a.m_runPrePost=false; a.buildDatabase(true); a.m_packageName=x; a.run(); (void)!chdir(scratch().c_str()); a.getListOfManInstalledPackages(); std::set<std::string> w2; todo.clear(); for(auto& y:nm) if(!dep[y]&&y!=x) todo.insert(y);
      while(!todo.empty()){ std::string y=*todo.begin(); todo.erase(y); if((!inst.count(y)||y==x)&&alias.count(y)) y=alias[y]; if(!w2.insert(y).second||y==x) continue; for(auto& z:g[y]) todo.insert(z); }
      if(a.m_listOfPackages.count(x)) fail("removed-package-still-listed","{\"package\":"+js(x)+",\"graph\":"+d+"}");
      if(a.m_listofDependencies!=w2) fail("wrong-needed-after-removal","{\"removed\":"+js(x)+",\"graph\":"+d+"}"); }
    wipe(R.substr(0,R.size()-1));
  }
}
