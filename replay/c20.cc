#include "world.h"
#include "pkgfile.h"
using namespace vp; using namespace gen;
typedef std::set<std::string> S;
static std::string base(const std::string& d){ size_t p=d.rfind('.'); return p==std::string::npos?d:d.substr(0,p); }
// one recipe with the given dependencies, spread over the two arrays and over lines in some way
static std::string recipe(const std::string& n,const std::vector<std::string>& deps){
  std::string t; if(coin(30)) t+="# build "+n+"\n\n"; t+="name="+n+"\n"; if(coin(80)) t+="version="+std::to_string(rnd(9))+"."+std::to_string(rnd(20))+"\n"; if(coin(50)) t+="release="+std::to_string(1+rnd(5))+"\n"; if(coin(40)) t+="description=\"The "+n+" port\"\n";
  std::vector<std::string> a,b; for(auto& d:deps) (coin(60)?a:b).push_back(d); if(coin(10)) for(auto& d:deps) if(coin(30)) b.push_back(d);
  auto arr=[&](const char* key,std::vector<std::string>& v){ if(v.empty()&&coin(70)) return; std::string s=std::string(coin(10)?"  ":"")+key+"=("; int st=rnd(4); for(size_t i=0;i<v.size();i++){ if(i||st==3){ if(st==0) s+=" "; else if(st==1) s+=", "; else if(st==2) s+=" \\\n\t"; else s+="\n "; } s+=v[i]; } s+=st==3&&coin()?"\n)\n":")\n"; t+=s; };
  bool first=coin(70); if(first) arr("makedepends",a); if(coin(30)) t+="url=http://example.org/\n"; arr("run",b); if(!first) arr("makedepends",a);
  t+="source=(http://example.org/$name.tar.xz)\nbuild() {\n\tmake\n}\n"; return t; }
void battery(){
  rule("random trees of ports in several collections (chains, diamonds, dependencies on sub-packages, on themselves, on unknown ports, ports in two collections, recipes that cannot be read, folders without a recipe): every port listed must be above each port it depends on, at level zero if there is none, and each dependency on an unknown port must be reported exactly once");
  int N=scale(700,8000);
  for(int it=0;it<N;it++){
    std::string D=fresh("ports"),cd=fresh("conf"),cf=cd+"/cards.conf",ctext; int nc=1+rnd(3); std::string desc;
    int np=1+rnd(it%5==0?14:7); std::vector<std::string> names; static const char* NM[]={"glibc","gcc","zlib","bash","perl","python","xz","a","b","gtk","qt","kde","sed","awk"}; for(int i=0;i<np;i++) names.push_back(NM[i]); for(size_t a=names.size();a>1;a--) std::swap(names[a-1],names[rnd(a)]);
    std::map<std::string,S> want; std::map<std::string,std::string> coll; static const char* CN[]={"base","cli","gui"}; int dens=10+rnd(60);
    for(int c=0;c<nc;c++){ std::string C=D+"/"+CN[c]; ctext+="collection "+C+"\n"; if(c&&coin(10)) continue; mkdirs(C); if(coin(20)) mkdirs(C+"/empty"); if(coin(20)) put(C+"/README","x\n"); if(coin(20)) mkdirs(C+"/.hidden");
      for(int i=0;i<np;i++){ bool here=coll.count(names[i])?coin(12):(c==nc-1||rnd(nc)==0); if(!here) continue; std::string P=C+"/"+names[i],pf=P+"/Pkgfile"; mkdirs(P); S deps;
        if(coin(6)){ if(coin()) (void)!::symlink("/nowhere/at/all",pf.c_str()); else { put(pf,recipe(names[i],{names[0]})); ::chmod(pf.c_str(),0); if(std::ifstream(pf)) { put(pf,""); } } }
        else { for(int j=0;j<i;j++) if(coin(dens)) deps.insert(names[j]+(coin(20)?coin()?".lib":".devel":"")); if(i&&coin(12)){ auto j=rnd(i); deps.insert(names[j]+".lib"); deps.insert(names[j]+(coin()?"":".devel")); } if(coin(10)) deps.insert(names[i]+(coin()?".lib":"")); for(int u=0;u<2;u++) if(coin(12)) deps.insert("nope"+std::to_string(u)+(coin(30)?".lib":"")); if(coin(3)) { deps.insert("nope0"); deps.insert("nope0.lib"); }
          std::vector<std::string> v(deps.begin(),deps.end()); for(size_t a=v.size();a>1;a--) std::swap(v[a-1],v[rnd(a)]); put(pf,recipe(names[i],v)); }
        want[names[i]]=deps; coll[names[i]]=C; } }
    mkdirs(cd); put(cf,ctext);
    std::string g; for(auto& w:want){ g+=w.first+":"; for(auto& d:w.second) g+=" "+d; g+="; "; } desc="{\"ports\":"+js(g)+",\"tree\":"+js(cf)+"}"; start(desc); if(it<2) sample(js(g)); if(want.size()>2) ++nontrivial;
    cards::pkgfile p(cf); auto order=rnd(3); if(order==0) p.badDependencies(); else if(order==1) p.getListOfPackages();
    std::map<std::string,int> lv; for(auto& w:want) lv[w.first]=p.getLevel(w.first);
    auto& L=p.getListOfPackages(); if(L.size()!=want.size()) fail("ports","{\"listed\":"+std::to_string(L.size())+",\"case\":"+desc+"}");
    for(auto& w:want){ if(!L.count(w.first)) fail("ports","{\"missing\":"+js(w.first)+",\"case\":"+desc+"}"); if(p.getDependencies(w.first)!=w.second) fail("dependencies","{\"port\":"+js(w.first)+",\"case\":"+desc+"}");
      bool any=false; for(auto& d:w.second){ std::string b=base(d); if(b==w.first||!want.count(b)) continue; any=true; if(lv[w.first]<=lv[b]) fail("not-above","{\"port\":"+js(w.first)+",\"level\":"+std::to_string(lv[w.first])+",\"dependency\":"+js(b)+",\"its_level\":"+std::to_string(lv[b])+",\"case\":"+desc+"}"); }
      if(!any&&lv[w.first]!=0) fail("not-zero","{\"port\":"+js(w.first)+",\"level\":"+std::to_string(lv[w.first])+",\"case\":"+desc+"}"); }
    std::map<std::pair<std::string,std::string>,int> exp,got; size_t tot=0; for(auto& w:want) for(auto& d:w.second) if(!want.count(base(d))){ ++exp[{w.first,base(d)}]; ++tot; }
    if(p.badDependencies().size()!=tot) fail("reports","{\"reported\":"+std::to_string(p.badDependencies().size())+",\"unknown\":"+std::to_string(tot)+",\"case\":"+desc+"}");
    for(auto& m:p.badDependencies()){ S tk; std::istringstream i(m); std::string x; while(i>>x) tk.insert(x); for(auto& e:exp) if(tk.count(e.first.first)&&tk.count(e.first.second)) ++got[e.first]; }
    if(got!=exp) fail("reports","{\"why\":\"not once for each\",\"case\":"+desc+"}");
    wipe(D); wipe(cd);
  }
}
