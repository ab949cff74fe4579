// Demonstration support: everything happens as nobody, below a scratch directory made here.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <grp.h>
#include <dirent.h>
#include <stdlib.h>
#include <string.h>
#include "pkgdbh.h"
#include "pkgadd.h"
#include "pkgrm.h"
static std::string R; static int bad=0;
static inline void setup(){ const char* s=getenv("SCRATCH"); if(!s) _exit(77); (void)!chown(s,65534,65534); (void)!setgroups(0,nullptr); (void)!setgid(65534); (void)!setuid(65534); if(chdir(s)) _exit(77); R=std::string(s)+"/"; }
static inline void check(bool ok,const char* what){ if(!ok){ std::cerr<<"FAILED: "<<what<<std::endl; bad=1; } }
static inline bool exists(const std::string& p){ struct stat b; return lstat(p.c_str(),&b)==0; }
static inline void mkdirs(const std::string& p){ for(size_t i=1;i<=p.size();i++) if(i==p.size()||p[i]=='/') mkdir(p.substr(0,i).c_str(),0755); }
static inline void put(const std::string& p,const std::string& c){ size_t s=p.rfind('/'); if(s!=std::string::npos) mkdirs(p.substr(0,s)); std::ofstream f(p,std::ios::binary); f<<c; }
static inline std::string get(const std::string& p){ std::ifstream f(p,std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str(); }
static inline void quiet(pkgdbh& db){ db.m_root=R; db.m_progress=false; db.m_dependency=false; db.m_filesNumber=1; db.m_installedFilesNumber=0; db.m_actualAction=cards::ACTION_ENUM_DB_OPEN_START; db.m_actualError=cards::ERROR_ENUM_CANNOT_FIND_DEPOT; }
static inline void own(pkgdbh& db,const std::string& n,std::set<std::string> f){ auto& d=db.m_listOfPackages[n]; d.files=f; d.version("1"); d.release(1); db.m_listOfAlias[n]=n; }
static inline void rule(pkgdbh& db,cards::rule_event_t e,const std::string& p,bool a){ rule_t r; r.event=e; r.pattern=p; r.action=a; db.m_actionRules.push_back(r); }
#include <archive_entry.h>
struct Ent { std::string path, content; int type=0; mode_t mode=0644; std::string link; };   // type 0 file, 1 directory, 2 symlink, 3 hardlink
static inline void mkar(const std::string& file,const std::vector<Ent>& es){
  struct ::archive* a=archive_write_new(); archive_write_set_format_pax_restricted(a); archive_write_open_filename(a,file.c_str());
  for(auto& e:es){ auto* h=archive_entry_new(); archive_entry_set_pathname(h,e.path.c_str()); archive_entry_set_perm(h,e.mode); archive_entry_set_uid(h,geteuid()); archive_entry_set_gid(h,getegid());
    if(e.type==1) archive_entry_set_filetype(h,AE_IFDIR); else if(e.type==2){ archive_entry_set_filetype(h,AE_IFLNK); archive_entry_set_symlink(h,e.link.c_str()); } else { archive_entry_set_filetype(h,AE_IFREG); if(e.type==3) archive_entry_set_hardlink(h,e.link.c_str()); archive_entry_set_size(h,e.type==3?0:e.content.size()); }
    archive_write_header(a,h); if(e.type==0&&e.content.size()) archive_write_data(a,e.content.data(),e.content.size()); archive_entry_free(h); }
  archive_write_close(a); archive_write_free(a); }
static inline void mkpkg(const std::string& file,const std::string& meta,const std::string& mtree,std::vector<Ent> payload={}){ payload.insert(payload.begin(),{".MTREE",mtree}); payload.insert(payload.begin(),{".META",meta}); mkar(file,payload); }
#include <sched.h>
// the scratch directory becomes the root of the filesystem (user namespace)
static inline void inroot(){ if(unshare(CLONE_NEWUSER)||chroot(R.c_str())||chdir("/")){ std::cerr<<"no user namespace\n"; _exit(78); } R="/"; }
#define DONE do{ std::cout.flush(); _exit(bad); }while(0)
