// whole commands (install, upgrade, remove) on a scratch root, through the real pkgadd and pkgrm
#pragma once
#include "ar_common.h"
#include "pkgadd.h"
#include "pkgrm.h"
#include <sys/file.h>
namespace gen {
struct Spec { std::string name="p",version="1"; int release=1; long build=1700000000; std::map<std::string,std::string> files; std::vector<std::string> extra; bool pre=false,post=false,prer=false,postr=false; std::string pretext; };   // files: path (directories end with /) -> content
static inline std::vector<std::string> metaOf(const Spec& s){ std::vector<std::string> m{"N"+s.name,"V"+s.version,"r"+std::to_string(s.release),"B"+std::to_string(s.build),"aany","cbase"}; for(auto& x:s.extra) m.push_back(x); return m; }
static inline std::string pack(const std::string& dir,const Spec& s){ mkdirs(dir); std::string f=dir+"/"+s.name+s.version+".cards.tar"; std::vector<std::string> mt{".META",".MTREE"}; std::vector<Ent> e;
  auto scr=[&](bool on,const char* n){ if(on){ e.push_back({n,s.pretext.empty()?"exit 0\n":s.pretext,0,0755}); mt.push_back(n); } }; scr(s.pre,".PRE"); scr(s.post,".POST"); scr(s.prer,".PRER"); scr(s.postr,".POSTR");
  for(auto& x:s.files){ mt.push_back(x.first); if(x.first.back()=='/') e.push_back({x.first,"",1,0755}); else e.push_back({x.first,x.second}); }
  mkpkg(f,metaOf(s),mt,e); return f; }
static inline std::string newRoot(const char* b="r"){ std::string R=fresh(b)+"/"; mkdirs(R+"var/lib/pkg/DB"); mkdirs(R+"etc"); return R; }
// 0 done, 1 refused or failed with an error, what it says in why
struct Opt { bool upgrade=false,force=false,scripts=false,dependency=false; };
static inline int add(const std::string& R,const std::string& file,Opt o,std::string& why,std::function<void(pkgadd&)> before=nullptr){
  bool rec=recording; recording=false; int rc=0; { pkgadd a; quiet(a,R); a.m_upgrade=o.upgrade; a.m_force=o.force; a.m_runPrePost=o.scripts; a.m_packageArchiveName=file; a.m_dependency=o.dependency;
    try{ a.buildDatabase(true); if(before) before(a); recording=rec; a.run(); }catch(std::exception& e){ why=e.what(); rc=1; } recording=false; a.m_postInstallList.clear(); }
  (void)!chdir(scratch().c_str()); recording=rec; return rc; }
static inline int del(const std::string& R,const std::string& name,bool scripts,std::string& why,std::function<void(pkgrm&)> before=nullptr){
  bool rec=recording; recording=false; int rc=0; { pkgrm a("pkgrm"); quiet(a,R); a.m_packageName=name; a.m_runPrePost=scripts;
    try{ a.buildDatabase(true); if(before) before(a); recording=rec; a.run(); }catch(std::exception& e){ why=e.what(); rc=1; } recording=false; }
  (void)!chdir(scratch().c_str()); recording=rec; return rc; }
static inline std::string specs(const Spec& s){ std::string r="{\"name\":"+js(s.name)+",\"version\":"+js(s.version)+",\"files\":{"; bool f=true; for(auto& x:s.files){ r+=(f?"":",")+js(x.first)+":"+js(x.second.substr(0,20)); f=false; } return r+"},\"extra\":"+jl(s.extra)+"}"; }
static inline std::map<std::string,std::string> shot(const std::string& R){ std::map<std::string,std::string> r; for(auto& f:tree(R)) r[f]=f.back()=='/'?"":get(R+f); return r; }
}
