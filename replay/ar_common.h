// builds package archives for the batteries
#pragma once
#include "gen.h"
#include "archive.h"
#include <archive_entry.h>
#include <sys/syscall.h>
namespace gen {
struct Ent { std::string path, content; int type=0; mode_t mode=0644; std::string link; };   // type 0 file, 1 directory, 2 symlink, 3 hardlink
static inline void mkar(const std::string& file,const std::vector<Ent>& es){
  struct ::archive* a=archive_write_new(); archive_write_set_format_pax_restricted(a); archive_write_open_filename(a,file.c_str());
  for(auto& e:es){ auto* h=archive_entry_new(); archive_entry_set_pathname(h,e.path.c_str()); archive_entry_set_perm(h,e.mode); archive_entry_set_uid(h,syscall(SYS_geteuid)); archive_entry_set_gid(h,syscall(SYS_getegid)); archive_entry_set_mtime(h,1000000,0);
    if(e.type==1){ archive_entry_set_filetype(h,AE_IFDIR);} else if(e.type==2){ archive_entry_set_filetype(h,AE_IFLNK); archive_entry_set_symlink(h,e.link.c_str()); } else { archive_entry_set_filetype(h,AE_IFREG); if(e.type==3) archive_entry_set_hardlink(h,e.link.c_str()); archive_entry_set_size(h,e.type==3?0:e.content.size()); }
    archive_write_header(a,h); if(e.type==0&&e.content.size()) archive_write_data(a,e.content.data(),e.content.size()); archive_entry_free(h); }
  archive_write_close(a); archive_write_free(a);
}
static inline std::string lines(const std::vector<std::string>& v,bool nl=true){ std::string r; for(size_t i=0;i<v.size();i++){ r+=v[i]; if(nl||i+1<v.size()) r+="\n"; } return r; }
// metadata + file list + payload entries
static inline void mkpkg(const std::string& file,const std::vector<std::string>& meta,const std::vector<std::string>& mtree,const std::vector<Ent>& payload={},bool nl=true){
  std::vector<Ent> es; es.push_back({".META",lines(meta,nl)}); es.push_back({".MTREE",lines(mtree,nl)}); for(auto& p:payload) es.push_back(p); mkar(file,es); }
static inline std::string firstOf(const std::vector<std::string>& m,char t){ for(auto& l:m) if(!l.empty()&&l[0]==t) return l.substr(1); return ""; }
static inline std::set<std::string> allOf(const std::vector<std::string>& m,char t){ std::set<std::string> r; for(auto& l:m) if(!l.empty()&&l[0]==t) r.insert(l.substr(1)); return r; }
}
