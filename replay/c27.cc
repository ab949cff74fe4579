#include "gen.h"
#include "conf.h"
using namespace vp;
void battery(){
  rule("configurations of 1-6 collections with and without a URL in any order, sharing name prefixes and depots, with nested directories, links to files and directories elsewhere and hidden entries; non-trivial: at least one collection with and one without a URL");
  int N=scale(400,5000); int home=open(".",O_RDONLY);
  for(int it=0;it<N;it++){
    std::string R=fresh("p"); int n=1+rnd(6); std::string cfg; struct C{std::string depot,name; bool url;}; std::vector<C> cs; bool wu=false,wo=false;
    static const char* names[]={"base","base-extra","bas","gnome","base.old"}; static const char* depots[]={"depot","depot2","dep"};
    std::set<std::string> used;
    for(int i=0;i<n;i++){ C c{R+"/"+depots[rnd(3)],names[rnd(5)],coin()}; if(!used.insert(c.depot+"/"+c.name).second) continue; (c.url?wu:wo)=true; cs.push_back(c); cfg+="dir "+c.depot+"/"+c.name+(c.url?(coin()?" | http://example.invalid/x":"|http://example.invalid/y"):"")+(coin(20)?" # a comment":"")+"\n"; if(coin(10)) cfg+="logdir "+R+"/log\n"; }
    if(cs.empty()) continue; if(wu&&wo) ++nontrivial;
    mkdirs(R+"/elsewhere/sub"); put(R+"/elsewhere/keep","k"); put(R+"/elsewhere/sub/keep2","k");
    for(auto& c:cs){ std::string d=c.depot+"/"+c.name; if(coin(8)) continue; mkdirs(d); int k=rnd(5); for(int i=0;i<k;i++){ std::string q=d; int lv=rnd(3); for(int j=0;j<lv;j++){ q+="/"+std::string(1,'p'+rnd(3)); } mkdirs(q); put(q+"/"+(coin(20)?".hid":"f")+std::to_string(rnd(4)),"x"); }
      if(coin(30)){ if(symlink((R+"/elsewhere").c_str(),(d+"/lnk").c_str())){} } if(coin(20)){ if(symlink((R+"/elsewhere/keep").c_str(),(d+"/lf").c_str())){} }
      put(c.depot+"/loose","x"); }
    for(auto d:depots) for(auto m:names) if(coin(10)&&!used.count(R+"/"+d+"/"+m)) put(R+"/"+d+"/"+m+"/unlisted","x");
    put(R+"/c.conf",cfg); auto before=tree(R); std::string desc="{\"config\":"+js(cfg)+",\"tree\":"+jl(before)+"}"; start(desc); if(it<2) sample(desc);
    reset(); { cards::conf c(R+"/c.conf"); 
      // the version file of a real system may add to the configuration: only the collections written here are judged
      for(auto& d:c.dirUrl()) if(d.depot.compare(0,R.size(),R)!=0){ skip("host configuration"); _exit(0); }
      recording=true; c.purge(); recording=false; }
    auto ok=[&](const std::string& p){ for(auto& c:cs) if(c.url){ std::string d=c.depot+"/"+c.name+"/"; if(p.compare(0,d.size(),d)==0) return true; } return false; };
    for(auto& e:effects){ if(e.kind=="remove"||e.kind=="unlink"||e.kind=="rmdir"){ if(!ok(e.path)||e.path.find("/lnk/")!=std::string::npos) fail("outside-deleted","{\"asked\":"+js(e.path)+",\"case\":"+desc+"}"); } }
    auto after=tree(R); for(auto& p:before) if(!after.count(p)&&!ok(R+"/"+p)) fail("outside-lost","{\"lost\":"+js(p)+",\"case\":"+desc+"}");
    for(auto& p:after) if(!before.count(p)) fail("something-created","{\"path\":"+js(p)+",\"case\":"+desc+"}");
    wipe(R);
  }
  if(fchdir(home)){}
}
