// shared generators of the batteries
#pragma once
#include "common.h"
#include "pkgdbh.h"
namespace gen {
using namespace vp;
static const char* POOL[]={"usr/","usr/bin/","usr/bin/a","usr/bin/b","usr/bin.d","usr/lib/","usr/lib/x.so","usr/lib/x.so.1","usr/lib/sub/","usr/lib/sub/deep","etc/","etc/conf","etc/conf d","etc/x.conf","usr-x","a","b"};
static inline std::vector<std::string> paths(int pct=70){ std::vector<std::string> P; for(auto p:POOL) if(coin(pct)) P.push_back(p); return P; }
static inline std::set<std::string> some(const std::vector<std::string>& P,int pct){ std::set<std::string> r; for(auto& p:P) if(coin(pct)) r.insert(p); return r; }
static inline std::string parent(const std::string& p){ std::string q=p; if(!q.empty()&&q.back()=='/') q.pop_back(); size_t s=q.rfind('/'); return s==std::string::npos?"":q.substr(0,s+1); }
static inline void lay(const std::string& R,const std::set<std::string>& present,const std::string& content="x"){ for(auto f:present){ if(f.back()=='/') mkdirs(R+f); else put(R+f,content+f); } }
static inline void quiet(pkgdbh& db,const std::string& R){ db.m_root=R; db.m_progress=false; db.m_dependency=false; db.m_filesNumber=1; db.m_installedFilesNumber=0; db.m_actualAction=cards::ACTION_ENUM_DB_OPEN_START; db.m_actualError=cards::ERROR_ENUM_CANNOT_FIND_DEPOT; }
static inline std::string tbl(const std::map<std::string,std::set<std::string>>& W){ std::string d="{"; bool f=true; for(auto& w:W){ d+=(f?"":",")+js(w.first)+":"+jl(w.second); f=false; } return d+"}"; }
}
