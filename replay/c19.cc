#include "world.h"
#include "pkgrepo.h"
using namespace vp; using namespace gen;
typedef std::set<std::string> S;
struct E1 { std::map<std::string,std::string> s; std::map<std::string,unsigned long> n; std::map<std::string,S> l; std::set<std::pair<std::string,time_t>> d; };
void battery(){
  rule("random repository indexes of several collections: stanzas with random tags left out, repeated, in any order, extra empty lines, leading lines, other '@' lines, stanzas not ended by an empty line, the same name twice, group sub-packages; every entry must hold exactly what its own stanza and its collection's configuration say, and no other entry may exist");
  int N=scale(1500,20000);
  for(int it=0;it<N;it++){
    std::string D=fresh("depot"); std::string cd=fresh("conf"),cf=cd+"/cards.conf",ctext="version 12\n"; std::map<std::string,std::vector<E1>> want; std::set<std::string> must; std::string all; int nc=1+rnd(3); std::string machine=getMachineType();
    bool vary=it%3==0;
    for(int c=0;c<nc;c++){
      static const char* CN[]={"base","cli","gui"}; std::string cn=CN[c],url=coin(80)?"http://example.org/x":""; ctext+="dir "+D+"/"+cn+(url.empty()?"":"|"+url)+"\n"; if(c&&coin(15)) continue; // no index
      std::string t; int ns=rnd(6); if(coin(10)) t+="\n"; if(coin(10)) t+="Dnot in a stanza\ncwrong\n"; 
      for(int k=0;k<ns;k++){
        static const char* NM[]={"p","p.lib","p.fr","q","zlib","zlib.devel","gcc","x"}; std::string n=NM[rnd(8)]; E1 e; std::string fn=n+".cards-1-any-r1.tar.xz"; t+="@"+fn+"\n"; e.s["fileName"]=fn; e.s["dirName"]=D+"/"+cn; e.s["collection"]=cn; e.s["origin"]=url+"/"+machine+"/12/"+cn;
        std::vector<std::string> ln; auto val=[&](){ static const char* V[]={"one","two words","3","a-b","","N","@x","V1"}; return std::string(V[rnd(8)])+(coin(30)?std::to_string(rnd(1000)):""); };
        auto str=[&](char tg,const char* f,int pc){ if(coin(pc)){ std::string v=val(); ln.push_back(tg+v); } (void)f; };
        bool named=!coin(3); if(named) ln.push_back("N"+n);
        str('V',"version",60); str('D',"description",50); str('U',"url",50); str('C',"contributors",30); str('M',"maintainer",40); str('P',"packager",40); str('L',"license",40); str('a',"arch",50); str('H',"hash",40); str('I',"signature",40); str('c',"collection",20);
        if(coin(60)) ln.push_back("r"+std::to_string(rnd(70000))); if(coin(60)) ln.push_back("S"+std::to_string(rnd(100000))); if(coin(60)) ln.push_back("B"+std::to_string(1600000000+rnd(99999999))); if(coin(60)) ln.push_back("i"+std::to_string(rnd(1000000)));
        size_t dot=n.find('.'); if(dot!=std::string::npos&&coin(80)) ln.push_back((coin()?"g":"n")+n.substr(dot+1));
        for(char tg:{'l','A','s','T','o'}){ int m=coin(50)?0:rnd(3); while(m--) ln.push_back(tg+val()); }
        { int m=coin(50)?0:rnd(4); while(m--) ln.push_back("R"+std::string(coin(85)?"some-package":"x")+std::to_string(1600000000+rnd(99999999))); }
        if(coin(15)) ln.push_back("Runused line"); if(coin(5)) ln.push_back("@comment"); if(vary&&coin(20)&&!ln.empty()) ln.push_back(ln[rnd(ln.size())]);
        if(vary) for(size_t a=ln.size();a>1;a--) std::swap(ln[a-1],ln[rnd(a)]);
        std::string pn;
        for(auto& x:ln){ t+=x+"\n"; std::string v=x.substr(1); switch(x[0]){ case 'N': pn=v; break; case 'V': e.s["version"]=v; break; case 'D': e.s["description"]=v; break; case 'U': e.s["url"]=v; break; case 'C': e.s["contributors"]=v; break; case 'M': e.s["maintainer"]=v; break; case 'P': e.s["packager"]=v; break; case 'L': e.s["license"]=v; break; case 'a': e.s["arch"]=v; break; case 'H': e.s["hash"]=v; break; case 'I': e.s["signature"]=v; break; case 'c': e.s["collection"]=v; break;
          case 'r': e.n["release"]=(unsigned short)std::stoi(v); break; case 'S': e.n["space"]=std::stoul(v); break; case 'B': e.n["build"]=std::stoul(v); break; case 'i': e.n["size"]=std::stoul(v); break;
          case 'g': case 'n': e.s[x[0]=='g'?"group":"nls"]=v; e.s["baseName"]=pn.size()>=x.size()?pn.substr(0,pn.size()-x.size()):pn; break; case 'l': e.l["libs"].insert(v); break; case 'A': e.l["alias"].insert(v); break; case 's': e.l["sets"].insert(v); break; case 'T': e.l["categories"].insert(v); break; case 'o': e.l["conflicts"].insert(v); break;
          case 'R': if(x.size()>14) e.d.insert({x.substr(1,x.size()-11),(time_t)strtoul(x.substr(x.size()-10).c_str(),0,0)}); break; } }
        bool closed=!coin(10); if(closed){ t+="\n"; must.insert(pn); if(coin(10)) t+="\n"; if(coin(5)) t+="Vstray\nNstray\n"; if(coin(4)) t+="\n"; }
        want[pn].push_back(e);
      }
      mkdirs(D+"/"+cn); put(D+"/"+cn+"/.REPO",t); all+="== "+cn+"\n"+t; }
    mkdirs(cd); put(cf,ctext); start("{\"indexes\":"+js(all)+"}"); if(it<2) sample(js(all)); if(must.size()>1) ++nontrivial;
    { cards::pkgrepo r(cf); r.parse(); std::string d="{\"indexes\":"+js(all)+",\"conf\":"+js(ctext)+"}";
      for(auto& x:must) if(!r.m_listOfPackages.count(x)) fail("no-entry","{\"package\":"+js(x)+",\"case\":"+d+"}");
      for(auto& x:r.m_listOfPackages){ auto& o=x.second; std::string bad="no stanza with that name"; bool ok=false;
        for(auto& e:want[x.first]){ std::string b; auto s=[&](const char* f,const std::string& v){ auto i=e.s.find(f); std::string w=i==e.s.end()?"":i->second; if(v!=w) b=std::string(f)+" is '"+v+"', the stanza says '"+w+"'"; }; auto n=[&](const char* f,unsigned long v){ auto i=e.n.find(f); unsigned long w=i==e.n.end()?0:i->second; if(v!=w) b=std::string(f)+" is "+std::to_string(v)+", the stanza says "+std::to_string(w); }; auto l=[&](const char* f,const S& v){ if(v!=e.l[f]) b=std::string(f)+" differ"; };
          s("fileName",o.fileName()); s("dirName",o.dirName()); s("origin",o.origin()); s("version",o.version()); s("description",o.description()); s("url",o.url()); s("contributors",o.contributors()); s("maintainer",o.maintainer()); s("packager",o.packager()); s("license",o.license()); s("arch",o.arch()); s("hash",o.hash()); s("signature",o.signature()); s("group",o.group()); s("nls",o.nls()); s("baseName",o.baseName());
          if(!(e.s["collection"].empty()&&!e.s["baseName"].empty())) s("collection",o.collection());
          n("release",o.release()); n("space",o.space()); n("build",o.build()); n("size",o.size()); l("libs",o.libs()); l("alias",o.alias()); l("sets",o.sets()); l("categories",o.categories()); l("conflicts",o.conflicts()); if(o.dependencies()!=e.d) b="dependencies differ";
          if(b.empty()) ok=true; else bad=b; }
        if(!ok) fail("not-its-stanza","{\"package\":"+js(x.first)+",\"why\":"+js(bad)+",\"case\":"+d+"}"); } }
    wipe(D); wipe(cd);
  }
}
