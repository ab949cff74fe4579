#include "world.h"
using namespace vp; using namespace gen;
typedef std::set<std::string> SS;
struct Rec { std::string name; std::vector<std::string> lines,files; bool mark=false; std::map<char,SS> has; std::set<std::pair<std::string,long>> deps; };
static std::string text(){ static const char* T[]={"","a","base","some text with  spaces","d1","Vd1","x=1;y","Rlib1700000000","été","-","0","Aname"," lead","trail ","#c","/usr/bin/x"}; std::string t=T[rnd(16)]; if(coin(4)) t+=std::string(1+rnd(5000),'L'); return t; }
static std::string name(){ static const char* N[]={"p","q","lib","lib.devel","a-b_c+d","gcc","gcc-fortran","x1.2","META","files","p.fr","Z"}; return N[rnd(12)]; }
static std::string J(const std::vector<Rec>& v){ std::string s="["; for(size_t i=0;i<v.size();i++){ std::vector<std::string> l; for(auto& x:v[i].lines) l.push_back(x.substr(0,80)); s+=(i?",":"")+std::string("{\"package\":")+js(v[i].name)+",\"metadata\":"+jl(l)+",\"files\":"+jl(v[i].files)+"}"; } return s+"]"; }
static std::string joined(const std::vector<std::string>& v,bool nl){ std::string s; for(size_t i=0;i<v.size();i++) s+=v[i]+(i+1<v.size()||nl?"\n":""); return s; }
static void look(const std::string& d,const std::string& R,cards::db& e,const Rec& r){
  auto one=[&](char t,const std::string& got,const char* what){ auto i=r.has.find(t); std::string want=i==r.has.end()?"":*i->second.begin(); if(got!=want) fail(std::string("wrong-")+what,"{\"package\":"+js(r.name)+",\"recorded\":"+js(want.substr(0,80))+",\"loaded\":"+js(got.substr(0,80))+",\"case\":"+d+"}"); };
  one('D',e.description(),"description"); one('V',e.version(),"version"); one('c',e.collection(),"collection"); one('a',e.arch(),"architecture"); one('g',e.group(),"group"); one('C',e.contributors(),"contributors"); one('L',e.license(),"license"); one('M',e.maintainer(),"maintainer"); one('P',e.packager(),"packager"); one('U',e.url(),"url");
  auto num=[&](char t,long got,long dflt,const char* what){ auto i=r.has.find(t); long want=i==r.has.end()?dflt:strtol(i->second.begin()->c_str(),nullptr,10); if(got!=want) fail(std::string("wrong-")+what,"{\"package\":"+js(r.name)+",\"recorded\":"+std::to_string(want)+",\"loaded\":"+std::to_string(got)+",\"case\":"+d+"}"); };
  num('B',e.build(),0,"build-date"); num('r',e.release(),1,"release"); num('S',e.space(),0,"size");
  auto all=[&](char t,const SS& got,const char* what){ auto i=r.has.find(t); SS want; if(i!=r.has.end()) want=i->second; if(got!=want) fail(std::string("wrong-")+what,"{\"package\":"+js(r.name)+",\"recorded\":"+jl(want)+",\"loaded\":"+jl(got)+",\"case\":"+d+"}"); };
  all('s',e.sets(),"sets"); all('T',e.categories(),"categories"); all('A',e.alias(),"aliases");
  std::set<std::pair<std::string,long>> g; for(auto& x:e.dependencies()) g.insert({x.first,(long)x.second}); if(g!=r.deps) fail("wrong-dependencies","{\"package\":"+js(r.name)+",\"case\":"+d+"}");
  if(e.dependency()!=r.mark) fail(r.mark?"mark-not-loaded":"marked-by-accident","{\"package\":"+js(r.name)+",\"case\":"+d+"}");
}
void battery(){
  rule("databases of up to six packages with hidden entries beside them; metadata with or without each field, in any order, empty values, long values, values that look like other fields, with or without a final newline; file lists of every length, empty lines, no final newline; loaded with and without files, by constructing or on demand, and queried one by one; then written by an install and loaded again; non-trivial: two or more packages");
  int N=scale(600,6000);
  for(int it=0;it<N;it++){
    std::string R=newRoot(); std::vector<Rec> v; SS names; int n=rnd(6);
    for(int i=0;i<n;i++){ Rec r; do r.name=name(); while(names.count(r.name)); names.insert(r.name);
      auto tagv=[&](char t,const std::string& x){ r.lines.push_back(std::string(1,t)+x); r.has[t].insert(x); };
      for(char t:{'D','V','c','a','C','L','M','P','U'}) if(coin(75)) tagv(t,t=='V'&&coin()?std::to_string(rnd(30)):text());
      if(coin(30)) tagv('g',std::vector<std::string>{"devel","doc","fr","man"}[rnd(4)]);
      if(coin(85)) tagv('B',coin(10)?"2200000000":coin(10)?"5000000000":std::to_string(1600000000L+rnd(1000000))); if(coin(85)) tagv('r',std::to_string(coin(10)?65000:1+rnd(40))); if(coin(85)) tagv('S',std::to_string(rnd(2000000000)));
      for(char t:{'s','T','A'}) for(int k=rnd(3);k>0;k--){ std::string x=t=='A'?"alias"+std::to_string(rnd(3))+r.name:text(); if(!r.has[t].count(x)) tagv(t,x); if(r.has[t].empty()) r.has.erase(t); }
      for(int k=rnd(4);k>0;k--){ std::string dn=coin(70)?name():"x"; long b=1000000000L+rnd(999999999); std::string l="R"+dn+std::to_string(b); if(r.deps.insert({dn,b}).second) r.lines.push_back(l); }
      r.mark=coin(35); if(r.mark) r.lines.push_back("d1"); else if(coin(30)) r.lines.push_back(std::vector<std::string>{"d0","d10","d","d1 "," d1","dd1","Dd1"}[rnd(6)]);
      for(auto& t:{'s','T','A'}) if(r.has.count(t)&&r.has[t].empty()) r.has.erase(t);
      if(coin(60)){ std::string nl="N"+r.name; r.lines.push_back(nl); } if(coin(20)) r.lines.push_back("n"+text()); if(coin(20)) r.lines.push_back("llibc.so.6"); if(coin(20)) r.lines.push_back("H123"); if(coin(10)) r.lines.push_back("i5"); if(coin(10)) r.lines.push_back("oconflict"); if(coin(10)) r.lines.push_back("");
      for(size_t k=r.lines.size();k>1;k--) std::swap(r.lines[k-1],r.lines[rnd(k)]);
      auto P=paths(60); for(auto& f:some(P,coin(10)?0:50)) r.files.push_back(f); if(coin(15)) r.files.push_back("usr/"+std::string(3000+rnd(6000),'f')); if(coin(20)) r.files.push_back("usr/with space/é"); if(coin(8)) for(int k=0;k<3000;k++) r.files.push_back("usr/share/many/file-"+std::to_string(k)); std::sort(r.files.begin(),r.files.end()); r.files.erase(std::unique(r.files.begin(),r.files.end()),r.files.end());
      if(coin(10)){ size_t at=r.files.size()?rnd(r.files.size()):0; r.files.insert(r.files.begin()+at,""); }
      std::string D=R+"var/lib/pkg/DB/"+r.name; mkdirs(D); put(D+"/META",joined(r.lines,coin(85))); put(D+"/files",joined(r.files,coin(85))); if(coin(20)) put(D+"/README","D not this\nd1\n"); v.push_back(r); }
    // dd1-like lines that do carry a D value
    for(auto& r:v) for(auto& l:r.lines) if(l=="Dd1"&&!(r.has.count('D')&&r.has['D'].count("d1"))) r.has['D'].insert("d1");
    bool amb=false; for(auto& r:v) for(char t:{'D','V','c','a','C','L','M','P','U','g','B','r','S'}) if(r.has.count(t)&&r.has[t].size()>1) amb=true; if(amb){ skip("the same field twice"); wipe(R.substr(0,R.size()-1)); continue; }
    if(coin(40)) put(R+"var/lib/pkg/DB/.files/x","y"); if(coin(30)) mkdirs(R+"var/lib/pkg/DB/.hidden"); if(coin(30)) put(R+"var/lib/pkg/DB/.lck","");
    std::string d=J(v); if(d.size()>4000) d=d.substr(0,4000)+"..."; else ; if(d.back()=='.') d=js(d); start(d); if(it<2) sample(d); if(n>1) ++nontrivial;
    auto before=shot(R);
    bool withFiles=coin(75); pkgdbh* p=nullptr; char* mem=new char[sizeof(pkgdbh)]; memset(mem,rnd(256),sizeof(pkgdbh)); p=new(mem) pkgdbh("x"); pkgdbh& db=*p; quiet(db,R);
    try{
      if(coin(30)) db.getListOfPackagesNames(); db.buildDatabase(withFiles);
      if(db.m_listOfPackagesNames!=names) fail("wrong-list","{\"listed\":"+jl(db.m_listOfPackagesNames)+",\"case\":"+d+"}"); SS k; for(auto& x:db.m_listOfPackages) k.insert(x.first); if(k!=names) fail("wrong-packages","{\"loaded\":"+jl(k)+",\"case\":"+d+"}");
      for(auto& r:v){ auto q=db.m_listOfPackages.find(r.name); if(q==db.m_listOfPackages.end()) continue; look(d,R,q->second,r);
        SS w(r.files.begin(),r.files.end()); w.erase(""); SS got(q->second.files.begin(),q->second.files.end()); if(got!=(withFiles?w:SS())) fail("wrong-file-list","{\"package\":"+js(r.name)+",\"loaded\":"+jl(got.size()>60?SS():got)+",\"case\":"+d+"}");
        SS g2=db.getSetOfFiles(r.name); if(g2!=w) fail("wrong-file-list-on-demand","{\"package\":"+js(r.name)+",\"case\":"+d+"}");
        for(auto& x:r.has) { if(strchr("DVcaLrS",x.first)&&db.getSingleItem(r.name,x.first)!=*x.second.begin()) fail("wrong-item-on-demand","{\"package\":"+js(r.name)+",\"item\":"+js(std::string(1,x.first))+",\"case\":"+d+"}"); if(strchr("sT",x.first)&&db.getSetOfItems(r.name,x.first)!=x.second) fail("wrong-items-on-demand","{\"package\":"+js(r.name)+",\"case\":"+d+"}"); }
        if(!r.has.count('D')&&!db.getSingleItem(r.name,'D').empty()) fail("item-out-of-nothing",d);
        if(db.m_listOfAlias[r.name]!=r.name) fail("name-not-resolved","{\"package\":"+js(r.name)+",\"case\":"+d+"}"); if(r.has.count('A')) for(auto& a:r.has.at('A')) if(db.m_listOfAlias[a]!=r.name) fail("alias-not-resolved","{\"package\":"+js(r.name)+",\"alias\":"+js(a)+",\"case\":"+d+"}"); }
      if(shot(R)!=before) fail("loading-changed-the-root",d);
    }catch(std::exception& e){ fail("raised","{\"what\":"+js(e.what())+",\"case\":"+d+"}"); }
    p->~pkgdbh(); delete[] mem;
    if(it%6==0){ // as an install writes them
      Spec q; q.name="fresh-one"; q.files.clear(); auto P=paths(60); for(auto& f:some(P,50)) q.files[f]="x"; q.files["opt/é b"]="x"; q.extra={"Dhello there","Lgpl","sset1","sset2","Tdev","Aother-name","Rdep1700000001","S77"}; std::string A=fresh("a"),why; std::string f=pack(A,q); bool dep=coin(); Opt o; o.force=true; o.dependency=dep; if(coin(20)) put(R+"etc/pkgadd.conf","");
      if(add(R,f,o,why)==0){ pkgdbh x("x"); quiet(x,R); x.buildDatabase(true); SS w; for(auto& e:q.files) w.insert(e.first); cards::db& e=x.m_listOfPackages["fresh-one"]; SS got(e.files.begin(),e.files.end()); std::string dd="{\"installed\":"+specs(q)+",\"loaded\":"+jl(got)+"}"; if(got!=w) fail("installed-file-list-differs",dd);
        if(e.description()!="hello there"||e.version()!="1"||e.license()!="gpl"||e.sets()!=SS{"set1","set2"}||e.categories()!=SS{"dev"}||e.alias()!=SS{"other-name"}||e.space()!=77||e.dependencies()!=std::set<std::pair<std::string,time_t>>{{"dep",1700000001}}||e.dependency()!=dep||e.build()!=1700000000||e.release()!=1||e.arch()!="any"||e.collection()!="base") fail("installed-metadata-differs",dd);
        for(auto& r:v) if(x.m_listOfPackages.count(r.name)) look(d,R,x.m_listOfPackages[r.name],r); else fail("package-gone",d); }
      wipe(A); }
    wipe(R.substr(0,R.size()-1));
  }
}
