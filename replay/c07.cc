#include "gen.h"
using namespace vp; using namespace gen;
static std::set<std::string> lines(const std::string& s){ std::set<std::string> r; std::stringstream t(s); std::string l; while(std::getline(t,l)) r.insert(l); return r; }
void battery(){
  rule("random tables of 1-5 packages over nested paths with their records on disk, random conflicting files (recorded by none, one or several packages), random keep list and files on disk; non-trivial: some package loses a file and another does not");
  int N=scale(250,4000);
  for(int it=0;it<N;it++){
    std::string root=fresh("r"),R=root+"/",D=R+"var/lib/pkg/DB/"; auto P=paths(75);
    pkgdbh db("pkgadd"); quiet(db,R); std::map<std::string,std::set<std::string>> W; int np=1+rnd(5);
    for(int i=0;i<np;i++){ std::string n=std::string("p")+char('a'+i); W[n]=some(P,40); auto& e=db.m_listOfPackages[n]; e.files=W[n]; e.version("1"+n); e.release(i+1); e.collection("base"); db.m_listOfAlias[n]=n; std::string b; for(auto& f:W[n]) b+=f+"\n"; put(D+n+"/files",b); put(D+n+"/META","N"+n+"\n"); }
    std::set<std::string> rm=some(P,30),keep=some(P,20),present=some(P,60); lay(R,present);
    db.m_packageName=coin()?std::string("p")+char('a'+rnd(np)):"new";
    std::string desc="{\"conflicts\":"+jl(rm)+",\"keep\":"+jl(keep)+",\"installed\":"+tbl(W)+",\"disk\":"+jl(present)+"}"; start(desc); if(it<2) sample(desc);
    std::set<std::string> want; for(auto& f:rm) if(!keep.count(f)&&exists(R+f)) want.insert(R+f);
    int ch=0; for(auto& w:W){ bool c=false; for(auto& f:w.second) if(rm.count(f)) c=true; ch+=c; } if(ch&&ch<np) ++nontrivial;
    auto before=tree(root); std::map<std::string,std::string> meta; reset(); recording=true; bool raised=false;
    auto rm0=rm,keep0=keep; try{ db.removePackageFilesRefsFromDB(rm,keep); }catch(...){ raised=true; } recording=false;
    if(raised) fail("raised",desc);
    for(auto& w:W){ std::set<std::string> x; for(auto& f:w.second) if(!rm.count(f)) x.insert(f); auto i=db.m_listOfPackages.find(w.first);
      if(i==db.m_listOfPackages.end()||i->second.files!=x) fail("memory-wrong","{\"package\":"+js(w.first)+",\"case\":"+desc+"}");
      else if(i->second.version()!="1"+w.first||i->second.release()!=w.first[1]-'a'+1||i->second.collection()!="base") fail("entry-changed",desc);
      if(lines(get(D+w.first+"/files"))!=x) fail("record-wrong","{\"package\":"+js(w.first)+",\"record\":"+jl(lines(get(D+w.first+"/files")))+",\"case\":"+desc+"}");
      if(get(D+w.first+"/META")!="N"+w.first+"\n") fail("meta-changed",desc); }
    if(db.m_listOfPackages.size()!=W.size()) fail("table-changed",desc);
    std::vector<std::string> asked; for(auto& e:effects) if(e.kind=="remove"||e.kind=="unlink"||e.kind=="rmdir") asked.push_back(e.path);
    std::set<std::string> got(asked.begin(),asked.end());
    for(auto& g:got) if(!want.count(g)) fail("deletes-unexpected","{\"path\":"+js(g)+",\"case\":"+desc+"}");
    for(auto& g:want) if(!got.count(g)) fail("not-deleted","{\"path\":"+js(g)+",\"case\":"+desc+"}");
    for(size_t i=0;i<asked.size();i++) for(size_t j=i+1;j<asked.size();j++){ std::string d=asked[i]; if(d.back()!='/') d+='/'; if(asked[j]!=asked[i]&&asked[j].compare(0,d.size(),d)==0) fail("directory-before-content",desc); }
    auto after=tree(root);
    for(auto& f:before) if(!after.count(f)&&!want.count(R+f)) fail("disk-lost","{\"path\":"+js(f)+",\"case\":"+desc+"}");
    for(auto& w:want){ std::string f=w.substr(R.size()); if(after.count(f)){ bool busy=false; if(f.back()=='/') for(auto& g:after) if(g!=f&&g.compare(0,f.size(),f)==0) busy=true; if(!busy) fail("disk-left","{\"path\":"+js(f)+",\"case\":"+desc+"}"); } }
    for(auto& f:after) if(!before.count(f)) fail("disk-added","{\"path\":"+js(f)+",\"case\":"+desc+"}");
    wipe(root);
  }
}
