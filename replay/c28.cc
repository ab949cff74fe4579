#include "world.h"
#include "remove.h"
using namespace vp; using namespace gen;
struct P { std::string coll,group; std::set<std::string> deps,sets,al; bool autom=false; };
void battery(){
  rule("random installed sets (collections, groups, sets, aliases, group sub-packages, dependencies by name and by alias, automatic marks), argument lists naming packages, aliases, collections, groups, sets and unknown names, with and without force: the remove command is run on a scratch root and must refuse, changing nothing, whenever a name asked for is the base collection or (itself or its real name) a recorded dependency, must leave every selected base package in place unless forced, must not refuse anything else, and must remove what was asked for");
  int N=scale(500,6000);
  for(int it=0;it<N;it++){
    std::string R=newRoot(); std::map<std::string,P> w; std::map<std::string,std::string> al; static const char* NM[]={"a","b","p","p.lib","p.doc","p.fr","q","q.doc","base-x","zz","lib","gcc"}; static const char* CO[]={"base","cli","extra","base-extra","bas"}; static const char* GR[]={"","","g1","base-g"}; static const char* ST[]={"s1","s2","s3"};
    int n=1+rnd(7); std::vector<std::string> nm; for(int i=0;i<n;i++){ std::string x=NM[rnd(12)]; if(w.count(x)) continue; nm.push_back(x); P& p=w[x]; p.coll=coin(25)?"base":CO[rnd(5)]; p.group=GR[rnd(4)]; bool many=it%4==1; p.autom=p.coll!="base"&&coin(25); if(coin(many?80:25)) p.sets.insert(ST[rnd(many?1:3)]); }
    for(auto& x:nm) if(coin(40)){ std::string a="al-"+x; w[x].al.insert(a); al[a]=x; if(coin(20)){ w[x].al.insert("AA"+x); al["AA"+x]=x; } }
    std::vector<std::string> pool=nm; for(auto& a:al) pool.push_back(a.first); pool.push_back("none");
    for(auto& x:nm) if(coin(25)){ int k=1+rnd(2); while(k--) w[x].deps.insert(pool[rnd(pool.size())]); }
    if(it%8==1) for(auto& x:w) x.second.deps.clear();
    std::set<std::string> used; for(auto& p:w) for(auto& d:p.second.deps) used.insert(d);
    std::vector<std::string> arg; int m=1+rnd(3); for(int i=0;i<m;i++){ int r=rnd(20); std::string a= r<8?nm[rnd(nm.size())] : r<12&&!al.empty()?std::next(al.begin(),rnd(al.size()))->first : r<14?CO[1+rnd(4)] : r<15?"base" : r<16?GR[2+rnd(2)] : r<17?ST[rnd(3)] : r<18?"none" : pool[rnd(pool.size())]; arg.push_back(a); }
    if(it%4==1) arg={coin(80)?"s1":"s2"};
    bool force=coin(25); std::string cd=fresh("conf"),cf=cd+"/cards.conf"; mkdirs(cd); std::set<std::string> groups; { std::string c; for(auto g:{"lib","doc","fr"}) if(coin(60)){ c+=std::string("group ")+g+"\n"; groups.insert(g); } put(cf,c); }
    for(auto& x:nm){ P& p=w[x]; std::string s="N"+x+"\nV1\nr1\nB1700000000\naany\n"; if(!p.coll.empty()) s+="c"+p.coll+"\n"; if(!p.group.empty()) s+="g"+p.group+"\n"; for(auto& y:p.sets) s+="s"+y+"\n"; for(auto& y:p.al) s+="A"+y+"\n"; for(auto& y:p.deps) s+="R"+y+"1700000000\n"; if(p.autom) s+="d1\n";
      put(R+"var/lib/pkg/DB/"+x+"/META",s); put(R+"var/lib/pkg/DB/"+x+"/files","usr/"+x+"\n"); put(R+"usr/"+x,"content"); }
    // what was selected
    auto real=[&](const std::string& a){ auto f=al.find(a); return w.count(a)||f==al.end()?a:f->second; };
    bool refused=false; std::set<std::string> sel; for(auto& a:arg){ if(a=="base"||used.count(a)||used.count(real(a))) refused=true; for(auto& p:w) if(p.second.coll==a||p.second.group==a) sel.insert(p.first); if(sel.empty()) for(auto& p:w) if(p.second.sets.count(a)) sel.insert(p.first); if(w.count(real(a))) sel.insert(real(a)); else if(sel.empty()) ; }
    std::set<std::string> named; for(auto& a:arg) if(w.count(real(a))) named.insert(real(a));
    { std::set<std::string> more; for(auto& g:groups) if(g!="lib") for(auto& x:sel) if(w.count(x+"."+g)) more.insert(x+"."+g); for(auto& x:more) sel.insert(x); }
    bool base=false; for(auto& x:sel) if(w[x].coll=="base") base=true;
    std::string d="{\"asked\":["; for(auto& a:arg) d+=(d.back()=='['?"":",")+js(a); d+="],\"forced\":"+std::string(force?"true":"false")+",\"groups\":"+jl(groups)+",\"installed\":{"; for(auto& x:nm) d+=(d.back()=='{'?"":",")+js(x)+":{\"collection\":"+js(w[x].coll)+",\"group\":"+js(w[x].group)+",\"sets\":"+jl(w[x].sets)+",\"alias\":"+jl(w[x].al)+",\"needs\":"+jl(w[x].deps)+"}"; d+="}}";
    start(d); if(it<3) sample(d); if(refused||base) ++nontrivial;
    auto before=shot(R); int rc=0; std::string why; bool chg=false; onEffect=nullptr;
    { CardsArgumentParser ap; ap.m_otherArguments=arg; ap.m_setOptions[ap.OPT_ROOT.id]=R.substr(0,R.size()-1); if(force) ap.m_setOptions[ap.OPT_FORCE.id]="";
      try{ cards::remove r("cards remove",ap,cf); }catch(std::exception& e){ rc=1; why=e.what(); } } (void)chg; (void)!chdir(scratch().c_str());
    auto after=shot(R); auto gone=[&](const std::string& x){ return !exists(R+"var/lib/pkg/DB/"+x+"/META")||!exists(R+"usr/"+x); };
    // not selected: goes along with an automatic package nobody needs any more
    auto follows=[&](const std::string& x){ if(sel.count(x)) return false; for(auto& y:nm) if(w[y].autom) for(auto& g:groups) if(g!="lib"&&x==y+"."+g) return true; return false; };
    if(refused){ if(rc==0) fail("not-refused",d); else { for(auto& f:before) if(f.first.compare(0,12,"var/lib/pkg/")||f.first.find("/META")!=std::string::npos||f.first.find("/files")!=std::string::npos) if(!after.count(f.first)||after[f.first]!=f.second){ fail("deleted-before-refusal","{\"gone\":"+js(f.first)+",\"case\":"+d+"}"); break; } } if(rc==0) for(auto& x:nm) if(gone(x)) fail("in-use-removed","{\"package\":"+js(x)+",\"case\":"+d+"}"); }
    else { if(!force){ for(auto& x:nm) if(w[x].coll=="base"&&gone(x)&&!follows(x)) fail("base-removed","{\"package\":"+js(x)+",\"case\":"+d+"}"); if(base&&rc==0) fail("base-not-refused",d); }
      if(rc&&(force||!base)) fail("refused-without-reason","{\"error\":"+js(why)+",\"case\":"+d+"}");
      if(!rc) for(auto& x:named) if(!gone(x)) fail("not-removed","{\"package\":"+js(x)+",\"case\":"+d+"}"); }
    wipe(R.substr(0,R.size()-1)); wipe(cd);
  }
}
