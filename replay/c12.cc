#include "world.h"
using namespace vp; using namespace gen;
static std::string resolve(const std::string& p){ std::string s=p; if(s.empty()||s[0]!='/'){ char b[4096]; if(getcwd(b,sizeof b)) s=std::string(b)+"/"+s; } std::vector<std::string> v; std::istringstream is(s); std::string c; while(std::getline(is,c,'/')){ if(c.empty()||c==".") continue; if(c==".."){ if(!v.empty()) v.pop_back(); } else v.push_back(c); } std::string r; for(auto& x:v) r+="/"+x; return r.empty()?"/":r; }
// one history below W (W empty: at the root of the filesystem)
static const char* META[]={".INFO",".META",".PRE",".POST",".MTREE",".README"};
static long history(const std::string& W,int it){ long changed=0;
    std::string R0=W+"/alt",A=W+"/archives",why; std::string R=R0+(coin(70)?"/":coin()?"//":"///"); mkdirs(R0+"/var/lib/pkg/DB"); mkdirs(R0+"/etc"); auto P=paths(75);
    // what must not be touched: the same files in the directory around the root and in one whose name starts with the root's
    std::vector<std::string> decoys{W.empty()?"/":W,W+"/altusr",W+"/alt."}; for(auto& d:decoys){ mkdirs(d+"/var/lib/pkg/DB"); for(auto& f:P) if(f.back()=='/') mkdirs(d+"/"+f); else put(d+"/"+f,"outside"); for(auto m:META) put(d+"/"+m,"outside"); for(auto n:{"p","q"}) for(auto f:{"META","files","PRER","POSTR"}) put(d+"/var/lib/pkg/DB/"+n+"/"+f,"outside"); }
    auto mk=[&](const char* n,const char* v){ Spec s; s.name=n; s.version=v; for(auto& f:some(P,60)) s.files[f]=v+f; if(coin(20)) s.files[".hidden"]="x"; s.files[std::string("usr/only-")+n+v]="y"; s.pre=!W.empty()&&coin(30); s.post=coin(40); s.prer=coin(40); s.postr=coin(40); return s; };
    if(coin(40)) put(R0+"/etc/pkgadd.conf",coin()?"UPGRADE ^etc/.*$ NO\n":"INSTALL ^usr/lib/.*$ NO\n");
    std::string hist; int steps=2+rnd(4);
    auto outside=[&](){ std::map<std::string,std::string> r; for(auto& f:tree(W.empty()?"/":W)) if(f.compare(0,4,"alt/")&&f.compare(0,9,"archives/")) r[f]=f.back()=='/'?"":get(W+"/"+f); return r; };
    std::map<std::string,std::string> before; bool up[2]={false,false};
    for(int s=0;s<steps;s++){
      int w=rnd(2); const char* n=w?"q":"p"; int op=rnd(5); if(!up[w]&&op>=2) op=1; Spec q=mk(n,std::to_string(s+1).c_str()); std::string f=pack(A,q); before=outside();
      for(auto m:META) if(coin(25)) put(R0+"/"+m,coin()?"exit 0\n":"");
      static const char* K[]={"rename","creat","fsync","mkdir","remove","unlink","extract","rmdir"}; std::string fk; int fn=0; if(coin(35)){ fk=K[rnd(8)]; fn=1+rnd(3); if(fk=="extract") ++fn; }
      hist+=(hist.empty()?"":",")+js(std::string(op==0?"open":op==4?"remove":up[w]?"upgrade":"install")+" "+n+(fn?" with "+fk+" failing at call "+std::to_string(fn):""));
      std::string d="{\"root\":"+js(R.substr(W.size()))+",\"steps\":["+hist+"],\"package\":"+specs(q)+"}"; start(d); if(it<2&&s==0) sample(d);
      (void)!chdir(W.empty()?"/":W.c_str()); reset(); if(fn){ failAt[fk]=fn; static const int EE[]={EIO,EACCES,EPERM,ENOENT,EROFS}; failErrno=EE[rnd(5)]; }
      auto chk=[&](const char* k,const std::string& p){ std::string a=resolve(p); if(a!=R0&&a.compare(0,R0.size()+1,R0+"/")) fail("changed-outside-the-root","{\"call\":"+js(std::string(k)+" "+p)+",\"names\":"+js(a)+",\"case\":"+d+"}"); };
      onEffect=[&](const Effect& e){ if(e.kind=="chdir"||e.kind=="fsync"||e.kind=="flock"||e.kind=="fork"||e.kind=="exec") return; ++changed; chk(e.kind.c_str(),e.path); if(!e.path2.empty()&&(e.kind=="rename"||e.kind=="link")) chk(e.kind.c_str(),e.path2); };
      auto* ob=std::cout.rdbuf(); auto* eb=std::cerr.rdbuf(); std::ostringstream os; std::cout.rdbuf(os.rdbuf()); std::cerr.rdbuf(os.rdbuf());
      auto sc=coin(75);
      try{ if(op==4){ pkgrm a("pkgrm"); quiet(a,R); a.m_packageName=n; a.m_runPrePost=sc; recording=true; try{ a.buildDatabase(true); a.run(); up[w]=false; }catch(std::exception&){} recording=false; a.m_postInstallList.clear(); }
        else { pkgadd a; quiet(a,R); a.m_dependency=coin(30); a.m_upgrade=up[w]; a.m_force=coin(80); a.m_runPrePost=sc; a.m_packageArchiveName=f; recording=true; try{ a.buildDatabase(true); if(op){ a.run(); up[w]=true; } }catch(std::exception&){} recording=false; a.m_postInstallList.clear(); } }catch(std::exception&){ recording=false; }
      std::cout.rdbuf(ob); std::cerr.rdbuf(eb); reset(); (void)!chdir("/");
      if(outside()!=before){ auto now=outside(); std::string what; for(auto& x:before) if(!now.count(x.first)) what+=" "+x.first+" is gone"; else if(now[x.first]!=x.second) what+=" "+x.first+" is changed"; for(auto& x:now) if(!before.count(x.first)) what+=" "+x.first+" appeared"; fail("something-changed-outside","{\"what\":"+js(what)+",\"case\":"+d+"}"); }
    }
    return changed;
}
void battery(){
  rule("commands on an alternative root beside a decoy with the same files: opening the database with left-over metadata files, installations, forced ones over conflicting files, upgrades with keep rules and removals, with all kinds of scripts and of calls failing, the root written with one or several slashes; every path changed, and what lies beside the root afterwards; non-trivial: the commands changed more than ten paths");
  int N=scale(150,2500); bool can=true;
  for(int it=0;it<N;it++){
    std::string W=fresh("w"); bool done=false; if(it%2&&can){ int st=inRoot(W,[&]()->int{ history("",it); return 0; }); if(WIFEXITED(st)&&WEXITSTATUS(st)==77) can=false; else { done=true; ++nontrivial; if(st!=0) fail("crash","{\"status\":"+std::to_string(st)+"}"); } }
    if(!done&&history(W,it)>10) ++nontrivial;
    (void)!chdir(scratch().c_str()); wipe(W);
  }
  // removing a file empties its directories up to the root at most
  for(int it=0;it<scale(300,3000);it++){
    std::string W=fresh("e"),R0=W+"/only/alt",R=R0+(coin()?"/":coin()?"//":"///"); mkdirs(R0); std::string f="a"; for(int k=rnd(3);k>0;k--) f=std::string(1,'a'+k)+(coin(80)?"/":"//")+f; mkdirs(R0+"/"+parent(f)); put(R0+"/"+f,"x");
    std::string d="{\"root\":"+js(R.substr(W.size()))+",\"file\":"+js(f)+"}"; start(d); reset(); std::vector<std::string> bad; onEffect=[&](const Effect& e){ std::string a=resolve(e.path); if(a.compare(0,R0.size()+1,R0+"/")) bad.push_back(a); };
    recording=true; removeFile(R,R+f); recording=false; reset(); if(!bad.empty()) fail("pruned-above-the-root","{\"asked\":"+jl(bad)+",\"case\":"+d+"}"); ++nontrivial; wipe(W); }
  // triggered programs are the root's own
  static const struct { int ev; const char* prog; const char* args; } TR[]={{cards::LDCONF,"usr/bin/ldconfig",nullptr},{cards::INFO,"usr/bin/install-info","--info-dir=usr/share/info "},{cards::ICONS,"usr/bin/gtk-update-icon-cache","-f -t "},{cards::FONTS,"usr/bin/mkfontscale",""},{cards::FONTS,"usr/bin/mkfontdir",""},{cards::FONTS,"usr/bin/fc-cache",""},{cards::SCHEMAS,"usr/bin/glib-compile-schemas",""},{cards::DESKTOP_DB,"usr/bin/update-desktop-database","-q "},{cards::MIME_DB,"usr/bin/update-mime-database","-n "},{cards::QUERY_PIXBUF,"usr/bin/gdk-pixbuf-query-loaders","--update-cache"},{cards::GIO_QUERY,"usr/bin/gio-querymodules","usr/lib/gio/modules"},{cards::QUERY_IMOD3,"usr/bin/gtk-query-immodules-3.0","--update-cache"},{cards::QUERY_IMOD2,"usr/bin/gtk-query-immodules-2.0","--update-cache"}};
  for(int it=0;it<scale(12,60);it++){
    std::string W=fresh("t"),R=W+"/alt/",log=W+"/log"; mkdirs(R+"usr/bin"); mkdirs(R+"etc"); mkdirs(W+"/usr/bin"); put(R+"etc/ld.so.conf","/usr/lib\n");
    std::set<int> evs; for(auto& t:TR) if(coin(50)) evs.insert(t.ev); std::multiset<std::string> want; std::string d="{\"root\":"+js("alt/")+",\"programs\":[";
    for(auto& t:TR) if(coin(75)){ put(R+t.prog,"#!/bin/sh\necho \"$0 $*\" >>"+log+"\n"); ::chmod((R+t.prog).c_str(),0755); put(W+"/"+t.prog,"#!/bin/sh\necho \"outside $0 $*\" >>"+log+"\n"); ::chmod((W+"/"+t.prog).c_str(),0755); d+=js(t.prog)+","; if(evs.count(t.ev)) want.insert(R+t.prog+" "+(t.ev==cards::LDCONF?"-r "+R:t.args+std::string(t.ev==cards::QUERY_PIXBUF||t.ev==cards::GIO_QUERY||t.ev==cards::QUERY_IMOD3||t.ev==cards::QUERY_IMOD2?"":"usr/share/f"))); }
    d+="\"\"],\"events\":["; for(int e:evs) d+=std::to_string(e)+","; d+="0]}"; start(d); reset(); fakeFork=1; (void)!chdir(W.c_str());
    { pkgdbh db("pkgadd"); quiet(db,R); db.m_postInstallList.clear(); for(int e:evs) db.m_postInstallList.insert({e==cards::LDCONF?"":"usr/share/f",e}); db.runLastPostInstall(); db.m_postInstallList.clear(); }
    reset(); (void)!chdir(scratch().c_str()); std::multiset<std::string> got; { std::istringstream is(get(log)); std::string l; while(std::getline(is,l)) got.insert(l); }
    if(got!=want){ std::string g; for(auto& x:got) g+=x+"; "; std::string w; for(auto& x:want) w+=x+"; "; fail("trigger-outside-the-root","{\"ran\":"+js(g)+",\"expected\":"+js(w)+",\"case\":"+d+"}"); } if(!want.empty()) ++nontrivial; wipe(W); }
}
