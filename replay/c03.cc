#include "gen.h"
using namespace vp; using namespace gen;
void battery(){
  rule("random tables of 0-5 packages over nested paths, random new file list, random files on disk (also dangling links), new package installed or not; non-trivial: at least one path conflicts and at least one does not");
  int N=scale(500,8000);
  for(int it=0;it<N;it++){
    std::string root=fresh("r"),R=root+"/"; auto P=paths(75);
    pkgdbh db("pkgadd"); quiet(db,R);
    std::map<std::string,std::set<std::string>> W; int np=rnd(6);
    for(int i=0;i<np;i++){ std::string n=std::string("p")+char('a'+i); W[n]=some(P,30); db.m_listOfPackages[n].files=W[n]; db.m_listOfAlias[n]=n; }
    std::set<std::string> present=some(P,35); lay(R,present);
    std::string dang; if(coin(20)){ dang="usr/dangling"; mkdirs(R+"usr/"); (void)!symlink("/nonexistent",(R+dang).c_str()); P.push_back(dang); }
    if(coin(25)&&!P.empty()){ std::string f=P[rnd(P.size())]; if(f.back()!='/'&&!exists(R+f)) mkdirs(R+f+"/"); }
    if(coin(20)){ mkdirs(R+"usr/"); (void)!symlink("bin",(R+"usr/tolink").c_str()); mkdirs(R+"usr/bin"); P.push_back("usr/tolink"); }
    std::string nm=std::string("p")+char('a'+rnd(6)); cards::db info; info.files=some(P,60);
    std::string desc="{\"install\":"+js(nm)+",\"files\":"+jl(info.files)+",\"installed\":"+tbl(W)+",\"disk\":"+jl(tree(root))+"}"; start(desc); if(it<2) sample(desc);
    std::set<std::string> want; for(auto& f:info.files){ if(f.back()=='/') continue; bool other=false; for(auto& w:W) if(w.first!=nm&&w.second.count(f)) other=true; if((other||exists(R+f))&&!(W.count(nm)&&W[nm].count(f))) want.insert(f); }
    if(!want.empty()&&want.size()<info.files.size()) ++nontrivial;
    auto inf=info.files; auto before=tree(root); std::set<std::string> got;
    try{ got=db.getConflictsFilesList(nm,info); }catch(...){ fail("raised",desc); }
    if(got!=want) fail("wrong-conflicts","{\"got\":"+jl(got)+",\"want\":"+jl(want)+",\"case\":"+desc+"}");
    if(tree(root)!=before) fail("disk-changed",desc);
    if(info.files!=inf) fail("file-list-changed",desc);
    if(db.m_listOfPackages.size()!=W.size()) fail("table-changed",desc); else for(auto& w:W) if(db.m_listOfPackages[w.first].files!=w.second) fail("table-changed",desc);
    wipe(root);
  }
}
