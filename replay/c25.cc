#include "gen.h"
#include "file_utils.h"
#include <libgen.h>
using namespace vp;
static std::string dn(const std::string& p){ char* c=strdup(p.c_str()); std::string r=dirname(c); free(c); return r; }
void battery(){
  rule("random trees of nested directories (some holding other entries), base directories at every level with and without trailing slashes, targets that are files, empty or full directories, links or missing; non-trivial: at least one parent is pruned or a parent must be kept");
  int N=scale(3000,40000);
  for(int it=0;it<N;it++){
    std::string R=fresh("t"); int depth=1+rnd(5); std::vector<std::string> chain{R}; std::string cur=R;
    for(int i=0;i<depth;i++){ cur+="/"+std::string(1,'a'+rnd(3))+(coin(20)?".d":""); chain.push_back(cur); mkdirs(cur); }
    for(auto& d:chain) if(coin(20)) put(d+"/other","x");
    int kind=rnd(10); std::string f=cur+"/file"; if(kind<6) put(f,"x"); else if(kind==6) { mkdirs(f); if(coin()) put(f+"/in","y"); } else if(kind==7) { if(symlink("nowhere",f.c_str())){} } else if(kind==8) f=cur;
    std::string base=chain[rnd(chain.size())]; if(f==base&&coin(50)) base=R; std::string b0=base; if(coin(40)) base+=coin(70)?"/":"//"; if(kind==6&&f!=b0&&coin(40)) f+="/";
    if(coin(3)) base=b0=f;
    std::set<std::string> before=tree(R);
    std::string desc="{\"base\":"+js(base)+",\"file\":"+js(f)+",\"tree\":"+jl(before)+"}"; start(desc); if(it<2) sample(desc);
    // what should happen
    std::vector<std::string> want; std::set<std::string> left=before; std::string p=f;
    while(p!=b0){ want.push_back(p); std::string rel=p.size()>R.size()?p.substr(R.size()+1):""; if(rel.size()&&rel.back()=='/') rel.pop_back(); bool isd=left.count(rel+"/"),isf=left.count(rel); bool full=false; for(auto& x:left) if(x.size()>rel.size()+1&&x.compare(0,rel.size()+1,rel+"/")==0) full=true;
      if(p.size()<=R.size()||(!isd&&!isf)||(isd&&full)) break; left.erase(rel); left.erase(rel+"/"); p=dn(p); }
    if(want.size()>1) ++nontrivial;
    reset(); recording=true; removeFile(base,f); recording=false;
    std::vector<std::string> got; for(auto& e:effects) if(e.kind=="remove"||e.kind=="unlink"||e.kind=="rmdir") got.push_back(e.path); else fail("other-effect","{\"kind\":"+js(e.kind)+",\"case\":"+desc+"}");
    bool prefix=true; 
    for(auto& g:got) if(g==b0||g==b0+"/") fail("base-asked-for","{\"asked\":"+jl(got)+",\"case\":"+desc+"}");
    for(auto& g:got) if(std::find(want.begin(),want.end(),g)==want.end()) fail("asked-for-something-else","{\"asked\":"+jl(got)+",\"want\":"+jl(want)+",\"case\":"+desc+"}");
    if(!isdir(b0)&&b0!=f&&std::find(chain.begin(),chain.end(),b0)!=chain.end()) fail("base-deleted",desc);
    if(isdir(R)){ auto after=tree(R); if(after!=left) fail("wrong-tree","{\"after\":"+jl(after)+",\"want\":"+jl(left)+",\"case\":"+desc+"}"); } else if(b0!=R+"x") fail("above-base",desc);
    // order: the file before its parents
    for(size_t i=0;i+1<got.size();i++) if(got[i].size()<got[i+1].size()) fail("parent-before-child","{\"asked\":"+jl(got)+"}");
    (void)prefix; wipe(R);
  }
}
