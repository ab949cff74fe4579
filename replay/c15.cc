#include "ar_common.h"
using namespace vp; using namespace gen;
struct Q { bool listed; std::string v; int r; long b; std::string c; };
static Q rq(){ static const char* V[]={"","1.0","1.0.1","2","1.0 "}; static const char* C[]={"","base","cli","base "}; return {coin(85),V[rnd(5)],rnd(3),(long)(coin(15)?2200000000L:coin(10)?5000000000L:1700000000)+rnd(3),C[rnd(4)]}; }
static std::string s(const Q& q){ return "["+std::string(q.listed?"true":"false")+","+js(q.v)+","+std::to_string(q.r)+","+std::to_string(q.b)+","+js(q.c)+"]"; }
static cards::db todb(const Q& q){ cards::db d; d.version(q.v); d.release(q.r); d.build(q.b); d.collection(q.c); return d; }
static bool want(const Q& i,const Q& c){ return i.listed&&i.v==c.v&&i.r==c.r&&i.b>=c.b&&(i.c==""||c.c==""||i.c==c.c); }
void battery(){
  rule("installed packages and candidates over small sets of versions, releases, build dates and collections (set and unset), installed or not; non-trivial: installed with equal version and release");
  int N=scale(20000,200000); std::string R=fresh("r")+"/";
  for(int it=0;it<N;it++){
    Q i=rq(),c=rq(); if(coin(40)){ c.v=i.v; c.r=i.r; } std::string nm=coin(80)?"p":"p2"; 
    pkgdbh db("x"); quiet(db,R); if(i.listed){ db.m_listOfPackagesNames.insert("p"); db.m_listOfPackages["p"]=todb(i); } db.m_listOfPackagesNames.insert("other"); db.m_listOfPackages["other"]=todb(rq());
    bool w=nm=="p"&&want(i,c); std::string desc="{\"installed\":"+s(i)+",\"candidate\":"+s(c)+",\"name\":"+js(nm)+"}"; start(desc); if(it<2) sample(desc); if(i.listed&&i.v==c.v&&i.r==c.r) ++nontrivial;
    std::pair<std::string,cards::db> p(nm,todb(c)); if(db.checkPackageNameUptodate(p)!=w) fail("wrong-verdict",desc);
    std::pair<std::string,time_t> dep(nm,coin(20)?0:c.b); if(db.checkPackageNameBuildDateSame(dep)!=(dep.second!=0&&nm=="p"&&i.listed&&i.b>=dep.second)) fail("wrong-dependency-verdict",desc);
    if(it%20==0){ std::string f=fresh("a")+"/p"; std::vector<std::string> m{"N"+nm,"V"+c.v,"r"+std::to_string(c.r),"B"+std::to_string(c.b)}; if(c.c!=""||coin(50)) m.push_back("c"+c.c); for(size_t k=m.size()-1;k>0;k--) std::swap(m[k],m[rnd(k+1)]); mkpkg(f,m,{"a"});
      try{ ::archive a(f); if(db.checkPackageNameUptodate(a)!=w) fail("wrong-archive-verdict",desc); }catch(std::exception& e){ fail("raised","{\"what\":"+js(e.what())+",\"case\":"+desc+"}"); } wipe(f.substr(0,f.rfind('/'))); }
    if(db.m_listOfPackages.size()!=(i.listed?2u:1u)) fail("query-changed-the-database",desc);
  }
}
