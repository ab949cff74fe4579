#pragma once
#include "pkgdbh.h"
static std::string parentOf(const std::string& p){ std::string q=p; if(!q.empty()&&q.back()=='/') q.pop_back(); size_t s=q.rfind('/'); return s==std::string::npos?"":q.substr(0,s+1); }
static void rmBattery(bool keepVariant){
  using namespace vp;
  rule("random sets of 1-5 packages over a small pool of nested paths (directories end with /), random overlap, random subset present on disk; non-trivial: the removed package records at least one existing file and shares at least one path or keeps one");
  const char* pool[]={"usr/","usr/bin/","usr/bin/a","usr/bin/b","usr/bin.d","usr/lib/","usr/lib/x.so","usr/lib/x.so.1","usr/lib/sub/","usr/lib/sub/deep","etc/","etc/conf","etc/conf d","usr-x","a","a/b"};
  int N=scale(250,4000);
  for(int it=0;it<N;it++){
    std::string root=fresh("r"); std::string R=root+"/";
    std::vector<std::string> P; for(auto p:pool) if(coin(70)) P.push_back(p);
    if(std::count(P.begin(),P.end(),"a")&&std::count(P.begin(),P.end(),"a/b")) P.erase(std::find(P.begin(),P.end(),"a/b"));
    pkgdbh db("pkgrm"); db.m_root=R; db.m_progress=coin(20); db.m_actualAction=cards::ACTION_ENUM_DB_OPEN_START; db.m_filesNumber=0; db.m_installedFilesNumber=0;
    int np=1+rnd(5); std::map<std::string,std::set<std::string>> W; 
    for(int i=0;i<np;i++){ std::string n=std::string("p")+char('a'+i); auto& d=db.m_listOfPackages[n]; W[n]; for(auto& f:P) if(coin(45)){ d.files.insert(f); W[n].insert(f);} d.version("1"); d.release(1); }
    std::set<std::string> present; for(auto& f:P) if(coin(75)){ present.insert(f); std::string q=f; while(!(q=parentOf(q)).empty()) present.insert(q); }
    for(auto& f:present){ if(f.back()=='/') mkdirs(R+f); else if(coin(25)){ size_t s=f.rfind('/'); if(s!=std::string::npos) mkdirs(R+f.substr(0,s)); ::symlink(coin(50)?(f.substr(s==std::string::npos?0:s+1)+".1").c_str():coin(50)?"nowhere":".",(R+f).c_str()); } else put(R+f,"x"); }
    if(coin(30)&&!P.empty()){ std::string stray="usr/lib/stray"; put(R+stray,"s"); }
    std::string victim=std::string("p")+char('a'+rnd(np)); std::set<std::string> keep; if(keepVariant) for(auto& f:P) if(coin(30)) keep.insert(f);
    std::string desc="{\"remove\":"+js(victim)+",\"packages\":{"; bool fst=true; for(auto& w:W){ desc+=(fst?"":",")+js(w.first)+":"+jl(w.second); fst=false; } desc+="},\"present\":"+jl(present)+",\"keep\":"+jl(keep)+"}";
    start(desc); if(it<2) sample(desc);
    std::set<std::string> want; bool nt=false;
    for(auto& f:W[victim]){ bool other=false; for(auto& w:W) if(w.first!=victim&&w.second.count(f)) other=true; if(other||keep.count(f)){ nt=true; continue; } if(exists(R+f)) want.insert(R+f); }
    if(nt&&!want.empty()) ++nontrivial;
    auto before=tree(root); reset(); recording=true;
    try{ if(keepVariant) db.removePackageFiles(victim,keep); else db.removePackageFiles(victim); }
    catch(...){ fail("raised",desc); }
    recording=false;
    std::vector<std::string> asked; for(auto& e:effects) if(e.kind=="remove"||e.kind=="unlink"||e.kind=="rmdir"||e.kind=="rename") asked.push_back(e.path);
    std::set<std::string> got(asked.begin(),asked.end());
    for(auto& g:got) if(!want.count(g)) fail("deletes-unexpected","{\"path\":"+js(g)+",\"case\":"+desc+"}");
    for(auto& g:want) if(!got.count(g)) fail("not-deleted","{\"path\":"+js(g)+",\"case\":"+desc+"}");
    for(size_t i=0;i<asked.size();i++) for(size_t j=i+1;j<asked.size();j++){ std::string d=asked[i]; if(d.back()!='/') d+='/'; if(asked[j]!=asked[i]&&asked[j].compare(0,d.size(),d)==0) fail("directory-before-content","{\"dir\":"+js(asked[i])+",\"content\":"+js(asked[j])+",\"case\":"+desc+"}"); }
    // the disk: expected files are gone, everything else is still there
    auto after=tree(root);
    std::set<std::string> wr; for(auto& w:want) wr.insert(w.substr(R.size()));
    for(auto& f:before){ bool gone=!after.count(f); bool exp=wr.count(f); if(gone&&!exp) fail("disk-lost","{\"path\":"+js(f)+",\"case\":"+desc+"}"); if(!gone&&exp&&f.back()!='/') fail("disk-left","{\"path\":"+js(f)+",\"case\":"+desc+"}"); if(!gone&&exp&&f.back()=='/'){ bool busy=false; for(auto& g:after) if(g!=f&&g.compare(0,f.size(),f)==0) busy=true; if(!busy) fail("empty-directory-left","{\"path\":"+js(f)+",\"case\":"+desc+"}"); } }
    if(db.m_listOfPackages.count(victim)) fail("package-still-listed",desc);
    for(auto& w:W) if(w.first!=victim){ auto i=db.m_listOfPackages.find(w.first); if(i==db.m_listOfPackages.end()||i->second.files!=w.second||i->second.version()!="1") fail("other-record-changed","{\"package\":"+js(w.first)+",\"case\":"+desc+"}"); }
    if(db.m_listOfPackages.size()!=W.size()-(W.count(victim)?1:0)) fail("record-count",desc);
    wipe(root);
  }
}
