#include "rules_common.h"
void battery(){
  rule("random rule lists of 0-9 rules over overlapping patterns and file lists; non-trivial: two rules of the kind match one file with opposite actions");
  int N=scale(1500,30000);
  std::string R=fresh("r")+"/";
  for(int it=0;it<N;it++){
    Add A(R); auto P=paths(60); auto v=rules(rnd(10),75); cards::db info; info.files=std::set<std::string>(P.begin(),P.end()); info.version("7"); info.release(3); info.dependency(true);
    std::string desc="{\"files\":"+jl(info.files)+",\"rules\":"+rjs(v)+"}"; start(desc); if(it<2) sample(desc);
    std::set<std::string> out,keep,rest; for(auto& f:info.files){ int i=lastmatch(v,f,cards::INSTALL); if(i>=0&&!v[i].action) out.insert(f); else rest.insert(f); i=lastmatch(v,f,cards::UPGRADE); if(i>=0&&!v[i].action) keep.insert(f); }
    bool nt=false; for(auto& f:info.files) for(int k:{(int)cards::INSTALL,(int)cards::UPGRADE}){ bool y=false,n=false; for(auto& r:v) if(r.event==k&&rx(r.pattern,f)) (r.action?y:n)=true; nt|=y&&n; } if(nt) ++nontrivial;
    auto all=info.files;
    try{ auto g=A.a.getKeepFileList(all,v); if(g!=keep) fail("wrong-keep-list","{\"got\":"+jl(g)+",\"want\":"+jl(keep)+",\"case\":"+desc+"}");
      auto o=A.a.applyInstallRules("p",info,v); if(o!=out) fail("wrong-excluded","{\"got\":"+jl(o)+",\"want\":"+jl(out)+",\"case\":"+desc+"}");
      if(info.files!=rest) fail("wrong-recorded-list","{\"got\":"+jl(info.files)+",\"want\":"+jl(rest)+",\"case\":"+desc+"}");
      if(info.version()!="7"||info.release()!=3||!info.dependency()) fail("metadata-changed",desc);
    }catch(std::exception& e){ fail("raised","{\"what\":"+js(e.what())+",\"case\":"+desc+"}"); }
  }
  // an invalid pattern is reported, not treated as a match
  { Add A(R); std::vector<rule_t> v(1); v[0].event=cards::UPGRADE; v[0].pattern="("; v[0].action=false; start("{\"pattern\":\"(\"}"); bool t=false; try{ A.a.getKeepFileList({"a"},v); }catch(std::exception&){ t=true; } if(!t) fail("bad-pattern-accepted","{\"pattern\":\"(\"}"); }
}
