#include "world.h"
#include <sys/utsname.h>
using namespace vp; using namespace gen;
void battery(){
  rule("packages refused for each reason and for several at once (caller not root, empty or nameless archive, other architecture on the real root, installed without upgrade, upgrade of one that is not installed, conflicting files not forced), with and without scripts, with rules; the calls made up to the refusal and the tree before and after; and the same packages when nothing stands against them");
  struct utsname un; uname(&un); std::string arch=un.machine; int N=scale(150,1500);
  for(int it=0;it<N;it++){
    std::string R=newRoot(),A=fresh("a"),why; auto P=paths(80); Spec p1,p2,q; p1.name=p2.name="p"; p2.version="2"; q.name="q";
    auto fill=[&](Spec& s){ for(auto& f:some(P,50)) s.files[f]=s.version+f; s.files["usr/only-"+s.name]="y"; }; fill(p1); fill(p2); fill(q);
    bool present=coin(50),upgrade=coin(50),force=coin(30),scripts=coin(60),root=coin(85); p2.pre=coin(60); p2.post=coin(50); p2.prer=coin(20); p1.pre=p2.pre;
    if(coin(30)) put(R+"etc/pkgadd.conf",coin()?"INSTALL ^usr/.*$ NO\n":"UPGRADE ^etc/.*$ NO\nLDCONF ^usr/.*$ YES\n");
    bool rules=exists(R+"etc/pkgadd.conf")&&get(R+"etc/pkgadd.conf")[0]=='I';
    if(coin(60)) add(R,pack(A,q),{},why); bool hasq=exists(R+"var/lib/pkg/DB/q/files");
    if(coin(30)) put(R+"usr/bin/a","stray");
    if(present){ Opt o; o.force=true; if(add(R,pack(A,p1),o,why)) fail("raised","{\"what\":"+js(why)+"}"); }
    std::string alias=coin(10)&&!present?"p":""; if(alias.size()){ Spec z; z.name="zz"; z.extra={"Ap"}; z.files["usr/zz"]="z"; add(R,pack(A,z),{},why); }
    bool known=present||alias.size();
    int bad=rnd(8); std::string f=A+"/n.tar"; auto m=metaOf(p2); std::vector<std::string> mt{".META",".MTREE"}; std::vector<Ent> e; 
    if(p2.pre){ e.push_back({".PRE","exit 0\n"}); mt.push_back(".PRE"); } if(p2.post){ e.push_back({".POST","exit 0\n"}); mt.push_back(".POST"); }
    for(auto& x:p2.files){ mt.push_back(x.first); if(x.first.back()=='/') e.push_back({x.first,"",1,0755}); else e.push_back({x.first,x.second}); }
    std::string reason; bool real=false;
    if(bad==0){ reason="empty"; mt.clear(); } if(bad==1){ reason="nameless"; m.erase(m.begin()); } if(bad==2){ for(auto& l:m) if(l=="aany") l="a"+arch; }
    if(bad==3&&coin(50)){ for(auto& l:m) if(l=="aany") l="asparc"; real=true; reason="architecture"; } if(bad==4){ for(auto& l:m) if(l=="aany") l="asparc"; }
    if(bad==0) mkpkg(f,m,mt,coin()?e:std::vector<Ent>{}); else mkpkg(f,m,mt,e);
    if(scripts&&!root) reason+=" user"; if(upgrade?!present:known) reason+=upgrade?" not-installed":" installed";
    // conflicts: files (not directories) the installation would write that exist or belong to another package, other than its own
    bool conf=false; for(auto& x:p2.files) if(x.first.back()!='/'){ bool inst=!(rules&&x.first.compare(0,4,"usr/")==0); bool own=present&&p1.files.count(x.first)&&!(rules&&x.first.compare(0,4,"usr/")==0); if(inst&&!own&&(exists(R+x.first)||(hasq&&q.files.count(x.first)&&!(rules&&x.first.compare(0,4,"usr/")==0)))) conf=true; }
    bool early=reason.size()>0; if(conf&&!force) reason+=" conflicts";
    std::string d="{\"package\":"+specs(p2)+",\"reasons\":"+js(reason)+",\"installed\":"+(present?"true":"false")+",\"upgrade\":"+(upgrade?"true":"false")+",\"force\":"+(force?"true":"false")+",\"scripts\":"+(scripts?"true":"false")+"}"; start(d); if(it<2) sample(d);
    auto before=shot(R); reset(); fakeUid=root?0:1000; Opt o; o.upgrade=upgrade; o.force=force; o.scripts=scripts; 
    if(early||reason.size()) ++nontrivial;
    recording=true; int rc=add(R,f,o,why,[&](pkgadd& a){ effects.clear(); count.clear(); if(real) a.m_root="/"; }); recording=false; 
    if(reason.size()){
      if(rc==0) fail("not-refused",d);
      std::string did; for(auto& x:effects){ if(x.kind=="chdir"||x.kind=="flock"||x.path==".") continue; std::string b=x.path.substr(x.path.rfind('/')+1); if(!early&&(x.kind=="extract"||x.kind=="remove"||x.kind=="unlink")&&b==".PRE"&&scripts) continue; did=x.kind+" "+x.path; break; }
      if(did.size()) fail("changed-although-refused","{\"call\":"+js(did)+",\"case\":"+d+"}");
      if(early&&(count["fork"]||!execs.empty())) fail("script-run-although-refused",d);
      if(shot(R)!=before) fail("tree-changed-although-refused",d);
    } else if(rc) fail("refused-without-a-reason","{\"what\":"+js(why)+",\"case\":"+d+"}");
    else { if(get(R+"var/lib/pkg/DB/p/META").find("V2")==std::string::npos) fail("not-installed",d); }
    reset(); wipe(R.substr(0,R.size()-1)); wipe(A);
  }
  // one command that is given the same package twice, or one another one stands for
  for(int i=0;i<6;i++){ reset(); std::string R=newRoot(),A=fresh("a"),why; Spec s,z; s.files["usr/a"]="1"; s.extra={"Aother"}; z.name=i%2?"other":"p"; z.version="2"; z.files["usr/b"]="2"; std::string d="{\"then\":"+js(z.name)+"}"; start(d); std::string f=pack(A,s),g=pack(A,z);
    pkgadd a; quiet(a,R); a.m_runPrePost=false; a.buildDatabase(true); a.m_packageArchiveName=f; if(i>=4){ a.run(); a.m_upgrade=true; if(a.checkPackageNameExist("p")) a.run(); else fail("not-known-after-installing",d); a.m_upgrade=false; } else a.run();
    if(i>=2&&i<4){ pkgrm r("pkgrm"); quiet(r,R); r.m_packageName="p"; r.m_runPrePost=false; r.buildDatabase(true); r.run(); continue; }
    auto before=shot(R); a.m_packageArchiveName=g; bool t=false; try{ a.run(); }catch(std::exception&){ t=true; } if(!t) fail("installed-twice",d); (void)!chdir(scratch().c_str()); if(shot(R)!=before) fail("changed-although-refused",d); }
  // the command line refuses other users first
  for(int i=0;i<4;i++){ reset(); fakeUid=i%2?0:1000; pkgadd a; quiet(a,newRoot()); std::string R=a.m_root; char n0[]="pkgadd",n1[]="x.tar",n2[]="-f"; char* v[]={n0,n1,n2,nullptr}; std::string d="{\"uid\":"+std::to_string(fakeUid)+"}"; start(d); bool t=false; recording=true; try{ a.parseArguments(i<2?2:3,v); }catch(std::exception&){ t=true; } recording=false; if(t!=(fakeUid!=0)) fail("wrong-user-check",d); if(t&&!effects.empty()) fail("changed-although-refused",d); reset(); }
}
