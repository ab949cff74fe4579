#include "rules_common.h"
static const char* EV[]={"LDCONF","UPGRADE","INSTALL","INFO","ICONS","FONTS","SCHEMAS","DESKTOP_DB","MIME_DB","QUERY_PIXBUF","GIO_QUERY","QUERY_IMOD3","QUERY_IMOD2"};
static int evno(const std::string& w){ static std::map<std::string,int> m={{"LDCONF",cards::LDCONF},{"UPGRADE",cards::UPGRADE},{"INSTALL",cards::INSTALL},{"INFO",cards::INFO},{"ICONS",cards::ICONS},{"FONTS",cards::FONTS},{"SCHEMAS",cards::SCHEMAS},{"DESKTOP_DB",cards::DESKTOP_DB},{"MIME_DB",cards::MIME_DB},{"QUERY_PIXBUF",cards::QUERY_PIXBUF},{"GIO_QUERY",cards::GIO_QUERY},{"QUERY_IMOD3",cards::QUERY_IMOD3},{"QUERY_IMOD2",cards::QUERY_IMOD2}}; auto i=m.find(w); return i==m.end()?-1:i->second; }
static std::string gap(){ static const char* G[]={" "," ","\t","  ","\t\t ","                "}; return G[rnd(6)]; }
struct Rl { int ev; std::string pat; bool act; };
void battery(){
  rule("random rules files of 0-12 lines: empty lines, comments, rules with any event, any white space, patterns with # inside, files with and without a final newline, lines of 1000-1100 and several thousand characters, lines of 1-6 words, unknown and lower-case events and actions; non-trivial: a line of each kind in one file");
  std::string R=fresh("r")+"/"; std::string F=R+"var/lib/pkg/pkgadd.conf"; mkdirs(R+"var/lib/pkg");
  for(int it=0;it<scale(2500,40000);it++){
    std::string txt; std::vector<Rl> want; bool bad=false,c=false; int n=rnd(13); bool mayBad=coin(50);
    for(int i=0;i<n;i++){
      std::string l; int k=rnd(100);
      if(k<10) l=""; else if(k<22){ l="#"+std::string(coin()?" ":"")+(coin()?"INSTALL ^a$ NO":"x"); if(coin(15)) l+=std::string(1100,'y'); c=true; }
      else if(mayBad&&k<40){ bad=true; switch(rnd(9)){ case 0: l="INSTALL"; break; case 1: l="INSTALL ^a$"; break; case 2: l="INSTALL ^a$ YES NO"; break; case 3: l="INSTALL ^a$ YES # note"; break; case 4: l=std::string(coin()?"install":coin()?"INSTAL":"INSTALLX")+" ^a$ YES"; break; case 5: l=std::string("UPGRADE ^a$ ")+(coin()?"yes":coin()?"NOT":coin()?"MAYBE":"YESNO"); break; case 6: l=coin()?" ":"\t \t"; break; case 7: { int L=1024+rnd(coin()?3:3000); l="INSTALL "; l+=std::string(L-12,'p')+" YES"; } break; default: l=" #INSTALL ^a$ YES"; if(coin()) l+=" NO"; } }
      else { Rl r; std::string e=EV[rnd(13)]; r.ev=evno(e); r.pat=coin(30)?PATS[rnd(12)]:"^p"+std::to_string(rnd(50))+(coin(20)?"#x":""); r.act=coin(); l=(coin(15)?gap():"")+e+gap(); if(coin(5)){ int L=1000+rnd(24); int o=L-(int)l.size()-6; if(o>0) r.pat=std::string(o,'q'); }
        l+=r.pat+gap()+(r.act?"YES":"NO")+(coin(15)?gap():""); if(l.size()>=1024) bad=true; if(bad) {} want.push_back(r); if(l[0]=='#') want.pop_back(); }
      txt+=l; if(i+1<n||coin(70)) txt+="\n";
    }
    if(coin(2)){ Add A(R); unlink(F.c_str()); start("{\"file\":null}"); ++cases; try{ A.a.readRulesFile(); if(A.a.m_actionRules.size()) fail("rules-from-nowhere","{}"); }catch(std::exception& e){ fail("raised","{\"what\":"+js(e.what())+"}"); } }
    put(F,txt); ++cases; if(want.size()>1&&(c||bad)) ++nontrivial;
    std::string d="{\"file\":"+js(txt.substr(0,3500))+"}"; start(d); if(it<2) sample(d);
    Add A(R); bool t=false; try{ A.a.readRulesFile(); }catch(std::exception& e){ t=true; }
    if(t!=bad){ fail(bad?"bad-file-accepted":"good-file-rejected",d); continue; } if(t) continue;
    auto& g=A.a.m_actionRules; bool ok=g.size()==want.size(); for(size_t i=0;ok&&i<g.size();i++) ok=(int)g[i].event==want[i].ev&&g[i].pattern==want[i].pat&&g[i].action==want[i].act;
    if(!ok) fail("wrong-rules","{\"got\":"+rjs(g)+",\"case\":"+d+"}");
    if(it%10==0){ A.a.readRulesFile(); if(A.a.m_actionRules.size()!=want.size()) fail("loaded-twice",d); }
  }
}
