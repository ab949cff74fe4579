#include "rules_common.h"
void battery(){
  rule("random rule lists (all 13 events) over overlapping patterns, file lists, possibly several packages after one another; non-trivial: a file with trigger rules of opposite actions, or a file none of whose rules match");
  int N=scale(1500,30000);
  std::string R=fresh("r")+"/";
  for(int it=0;it<N;it++){
    Add A(R); auto v=rules(rnd(10),25); std::set<std::pair<std::string,int>> want; bool nt=false; std::string all;
    int packs=1+rnd(2);
    for(int k=0;k<packs;k++){
      auto P=paths(50); cards::db info; info.files=std::set<std::string>(P.begin(),P.end());
      std::string desc="{\"files\":"+jl(info.files)+",\"rules\":"+rjs(v)+",\"after\":"+(all.empty()?"null":all)+"}"; all=desc; start(desc); if(it<2) sample(desc);
      for(auto& f:info.files){ int i=lastmatch(v,f,100); if(i>=0&&v[i].action) want.insert({v[i].event==cards::LDCONF?"":f,(int)v[i].event}); bool y=false,n=false; for(auto& r:v) if(r.event!=cards::INSTALL&&r.event!=cards::UPGRADE&&rx(r.pattern,f)) (r.action?y:n)=true; nt|=(y&&n)||(!y&&!n&&!v.empty()); }
      try{ A.a.applyInstallRules("p",info,v); }catch(std::exception& e){ fail("raised","{\"what\":"+js(e.what())+",\"case\":"+desc+"}"); }
      std::string g="[",w="["; for(auto& x:A.a.m_postInstallList) g+="["+js(x.first)+","+std::to_string((int)x.second)+"],"; for(auto& x:want) w+="["+js(x.first)+","+std::to_string(x.second)+"],";
      std::set<std::pair<std::string,int>> got(A.a.m_postInstallList.begin(),A.a.m_postInstallList.end());
      if(got!=want||g.size()!=w.size()) fail("wrong-triggers","{\"got\":"+js(g)+",\"want\":"+js(w)+",\"case\":"+desc+"}");
    }
    if(nt) ++nontrivial;
  }
}
