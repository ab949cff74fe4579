#include "ar_common.h"
#include <time.h>
using namespace vp; using namespace gen;
#define EQ(n,got,want) { auto g_=(got); auto w_=(want); if(g_!=w_) fail(n,"{\"got\":"+q(g_)+",\"want\":"+q(w_)+",\"meta\":"+desc+"}"); }
static std::string q(const std::string& s){ return js(s); } static std::string q(long s){ return std::to_string(s); }
static std::string q(const std::set<std::string>& s){ return jl(s); } static std::string q(const std::set<std::pair<std::string,time_t>>& s){ std::string r="["; for(auto& x:s) r+=(r.size()>1?",":"")+std::string("[")+js(x.first)+","+std::to_string(x.second)+"]"; return r+"]"; }
void battery(){
  rule("random metadata of 1-40 lines over every tag letter (missing, repeated and unknown tags, values that start with tag letters, with and without a final newline) in a real archive; non-trivial: some tag occurs twice and some is missing");
  int N=scale(500,6000); const char tags[]="NVrSaDUCMPLBcgRlAsTHIion"; 
  for(int it=0;it<N;it++){
    std::vector<std::string> m; int n=1+rnd(30); std::map<char,int> cnt;
    for(int i=0;i<n;i++){ char t=tags[rnd(sizeof tags-1)]; std::string v; if(t=='B') v=std::to_string(1+rnd(2000000000)); else if(t=='r') v=std::to_string(rnd(50)); else if(t=='R') v="dep"+std::to_string(rnd(9))+std::to_string(1500000000+rnd(1000)); else { int k=rnd(6); for(int j=0;j<k;j++) v+=coin(70)?tags[rnd(sizeof tags-1)]:" x-1."[rnd(5)]; } m.push_back(std::string(1,t)+v); ++cnt[t]; }
    if(coin(85)){ m.insert(m.begin()+rnd(m.size()+1),"Npkg"+std::to_string(rnd(9))); ++cnt['N']; }
    if(coin(30)){ m.insert(m.begin()+rnd(m.size()+1),"xunknown"); }
    std::vector<std::string> files; int nf=1+rnd(6); for(int i=0;i<nf;i++) files.push_back((coin(20)?".":"")+std::string("f")+std::to_string(rnd(9))+(coin(20)?"/":""));
    bool nl=coin(70); std::string desc="{\"lines\":"+jl(m)+",\"mtree\":"+jl(files)+",\"final_newline\":"+(nl?"true":"false")+"}"; start(desc); if(it<2) sample(desc);
    bool two=false,miss=false; for(char t:tags) if(t){ two|=cnt[t]>1; miss|=!cnt[t]; } if(two&&miss) ++nontrivial;
    std::string f=fresh("a")+"/p.cards"; if(coin(30)){ std::vector<Ent> es; std::vector<Ent> dec{{".META.old","Nold\nV0\nr9\n"},{".MTREE~","old\n"},{".MET","Nshort\n"},{"x/.META","Nsub\n"}}; for(auto& x:dec) if(coin()) es.push_back(x); es.push_back({".META",lines(m,nl)}); for(auto& x:dec) if(coin(30)) es.push_back(x); es.push_back({".MTREE",lines(files,nl)}); mkar(f,es); } else mkpkg(f,m,files,{},nl);
    if(!cnt['N']){ bool t=false; try{ ::archive a(f); }catch(std::exception&){ t=true; } if(!t) fail("nameless-archive-accepted",desc); wipe(f.substr(0,f.rfind('/'))); continue; }
    try{ ::archive a(f);
      EQ("name",a.name(),firstOf(m,'N')) EQ("version",a.version(),firstOf(m,'V')) EQ("arch",a.arch(),firstOf(m,'a')) EQ("collection",a.collection(),firstOf(m,'c')) EQ("group",a.group(),firstOf(m,'g')) EQ("description",a.description(),firstOf(m,'D')) EQ("url",a.url(),firstOf(m,'U'))
      EQ("license",a.license(),firstOf(m,'L')) EQ("maintainer",a.maintainer(),firstOf(m,'M')) EQ("contributors",a.contributors(),firstOf(m,'C')) EQ("packager",a.packager(),firstOf(m,'P')) EQ("nls",a.nls(),firstOf(m,'n'))
      EQ("epoch",a.epochBuildDate(),firstOf(m,'B'))
      long b=cnt['B']?strtol(firstOf(m,'B').c_str(),0,10):0; EQ("build",(long)a.build(),b)
      time_t ct=b; EQ("builddate",a.builddate(),std::string(ctime(&ct)))
      long r=cnt['r']?strtol(firstOf(m,'r').c_str(),0,10):0; EQ("release",(long)a.release(),r)
      EQ("sets",a.listofSets(),allOf(m,'s')) EQ("categories",a.listofCategories(),allOf(m,'T')) EQ("alias",a.listofAlias(),allOf(m,'A'))
      auto d=allOf(m,'R'); d.insert(firstOf(m,'N')+firstOf(m,'B')); EQ("dependencies",a.listofDependencies(),d)
      std::set<std::pair<std::string,time_t>> de; for(auto& x:allOf(m,'R')) de.insert({x.substr(0,x.size()-10),strtol(x.substr(x.size()-10).c_str(),0,10)}); de.insert({firstOf(m,'N'),b}); EQ("dependency-dates",a.listofDependenciesBuildDate(),de)
      std::set<std::string> fs; for(auto& x:files) if(x[0]!='.') fs.insert(x); EQ("files",a.setofFiles(),fs)
      EQ("sets-again",a.listofSets(),allOf(m,'s')) EQ("version-again",a.version(),firstOf(m,'V'))
    }catch(std::exception& e){ fail("raised","{\"what\":"+js(e.what())+",\"meta\":"+desc+"}"); }
    wipe(f.substr(0,f.rfind('/')));
  }
  // broken archives are refused
  std::string d=fresh("b"); for(int k=0;k<4;k++){ std::string f=d+"/x"+std::to_string(k); if(k==0) mkar(f,{{".MTREE","a\n"}}); if(k==1) mkar(f,{{".META","Np\n"}}); if(k==2) put(f,"garbage"); bool t=false; start("{\"broken\":"+std::to_string(k)+"}"); try{ ::archive a(f); }catch(std::exception&){ t=true; } if(!t) fail("broken-archive-accepted",std::to_string(k)); }
}
