#include "common.h"
#include <stdarg.h>
#include <dirent.h>
#include <sys/file.h>
#include <signal.h>
#include <sched.h>
#include <archive.h>
#include <archive_entry.h>
namespace vp {
std::vector<Effect> effects; bool recording=false; std::map<std::string,int> failAt; int crashAt=0; std::map<std::string,int> count; uid_t fakeUid=0; std::vector<std::string> execs;
int failErrno=EIO; bool realExec=false; int fakeFork=-1,fakeStatus=0,fakeWait=0; std::function<void(const Effect&)> onEffect; std::vector<std::string> extracted; bool fakeExtract=false,extractFail=false; int flockFail=0; long cases=0,nontrivial=0;
static FILE* out; static uint64_t S=1; static std::string scr; static int fails=0,samples_=0; static long uniq=0;
uint64_t rnd(){ S+=0x9e3779b97f4a7c15ULL; uint64_t z=S; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
int rnd(int n){ return n<=0?0:(int)(rnd()%(uint64_t)n); }
bool coin(int p){ return rnd(100)<p; }
void seed(uint64_t s){ S=s; }
const std::string& scratch(){ return scr; }
std::string fresh(const std::string& b){ std::string p=scr+"/"+b+std::to_string(++uniq); ::mkdir(p.c_str(),0755); return p; }
static int curfd=-1;
void start(const std::string& d){ ++cases; if(curfd<0) curfd=open((scr+"/.current").c_str(),O_CREAT|O_RDWR|O_TRUNC|O_CLOEXEC,0644); if(curfd>=0){ (void)!ftruncate(curfd,0); (void)!pwrite(curfd,d.data(),d.size(),0);} }
void fail(const std::string& k,const std::string& d){ if(fails++<40){ std::string x=d; for(auto& c:x) if(c=='\n') c=' '; fprintf(out,"@FAIL %s %s\n",k.c_str(),x.c_str()); fflush(out);} }
void sample(const std::string& d){ if(samples_++<3){ fprintf(out,"@SAMPLE %s\n",d.c_str()); fflush(out);} }
void rule(const std::string& r){ fprintf(out,"@RULE %s\n",r.c_str()); fflush(out); }
void skip(const std::string& r){ fprintf(out,"@SKIP %s\n",r.c_str()); fflush(out); }
std::string js(const std::string& s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
bool exists(const std::string& p){ struct stat b; return ::lstat(p.c_str(),&b)==0; }
bool isdir(const std::string& p){ struct stat b; return ::lstat(p.c_str(),&b)==0&&S_ISDIR(b.st_mode); }
struct Quiet { bool r; Quiet(){ r=recording; recording=false; } ~Quiet(){ recording=r; } };
void mkdirs(const std::string& p){ Quiet q; for(size_t i=1;i<=p.size();i++) if(i==p.size()||p[i]=='/') ::mkdir(p.substr(0,i).c_str(),0755); }
void put(const std::string& p,const std::string& c){ Quiet q; size_t s=p.rfind('/'); if(s!=std::string::npos) mkdirs(p.substr(0,s)); std::ofstream f(p,std::ios::binary); f<<c; }
std::string get(const std::string& p){ std::ifstream f(p,std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str(); }
static void walk(const std::string& r,const std::string& rel,std::set<std::string>& o){ DIR* d=opendir((r+"/"+rel).c_str()); if(!d) return; while(dirent* e=readdir(d)){ std::string n=e->d_name; if(n=="."||n=="..") continue; std::string p=rel+n; if(isdir(r+"/"+p)){ o.insert(p+"/"); walk(r,p+"/",o);} else o.insert(p);} closedir(d); }
std::set<std::string> tree(const std::string& r){ Quiet q; std::set<std::string> o; walk(r,"",o); return o; }
extern "C" int __real_remove(const char*); 
extern "C" int __real_unlink(const char*); extern "C" int __real_rmdir(const char*);
void wipe(const std::string& p){ if(p.compare(0,scr.size()+1,scr+"/")!=0) return; auto t=tree(p); for(auto i=t.rbegin();i!=t.rend();++i){ std::string q=p+"/"+*i; if(q.back()=='/') __real_rmdir(q.c_str()); else __real_unlink(q.c_str()); } struct stat b; if(lstat(p.c_str(),&b)==0){ if(S_ISDIR(b.st_mode)) __real_rmdir(p.c_str()); else __real_unlink(p.c_str()); } }
bool thorough(){ const char* t=getenv("VP_TIER"); return t&&!strcmp(t,"thorough"); }
int scale(int q,int t){ return thorough()?t:q; }
void reset(){ effects.clear(); failAt.clear(); crashAt=0; count.clear(); execs.clear(); extracted.clear(); onEffect=nullptr; fakeExtract=false; extractFail=false; flockFail=0; fakeFork=-1; fakeUid=0; failErrno=EIO; }
extern "C" pid_t __real_fork(void); extern "C" pid_t __real_waitpid(pid_t,int*,int);
int real_fork(){ return __real_fork(); }
int inChild(std::function<int()> f,int to){ fflush(out); pid_t p=__real_fork(); if(p==0){ alarm(to); int r=254; try{ r=f(); }catch(...){ r=253; } fflush(out); _exit(r);} int st=0; __real_waitpid(p,&st,0); return st; }
static void say(const char* f,const std::string& t){ int d=open(f,O_WRONLY|O_CLOEXEC); if(d>=0){ (void)!write(d,t.data(),t.size()); close(d); } }
int inRoot(const std::string& root,std::function<int()> f,int to){ return inChild([&]()->int{ uid_t u=getuid(),g=getgid(); (void)u; if(unshare(CLONE_NEWUSER)) _exit(77); say("/proc/self/setgroups","deny"); say("/proc/self/uid_map","0 0 1"); say("/proc/self/gid_map","0 "+std::to_string(g)+" 1"); if(chroot(root.c_str())||::chdir("/")) _exit(77); scr=""; return f(); },to); }
static std::string norm(const char* p){ std::string s=p?p:""; if(s.empty()) return s; if(s[0]!='/'){ char b[4096]; if(getcwd(b,sizeof b)) s=std::string(b)+"/"+s; } std::vector<std::string> v; std::stringstream ss(s); std::string t; while(std::getline(ss,t,'/')){ if(t.empty()||t==".") continue; if(t==".."){ if(!v.empty()) v.pop_back(); } else v.push_back(t);} std::string r; for(auto& x:v) r+="/"+x; return r.empty()?"/":r; }
static bool inside(const char* p){ std::string n=norm(p); return n==scr||n.compare(0,scr.size()+1,scr+"/")==0||n=="/dev/null"; }
// true: the call must not be carried out; r is its result
static bool gate(const char* kind,const char* a,const char* b,int& r){
  if(recording){
    if(crashAt>0&&--crashAt==0){ fflush(out); _exit(99); }
    ++count[kind];
    auto i=failAt.find(kind);
    if(i!=failAt.end()&&i->second>0&&--i->second==0){ errno=failErrno; r=-1; effects.push_back({kind,a?a:"",b?b:"",-1}); return true; }
    effects.push_back({kind,a?a:"",b?b:"",0}); if(onEffect) onEffect(effects.back());
  }
  if((a&&!inside(a))||(b&&!inside(b))){ errno=EACCES; r=-1; if(recording) effects.back().result=-1; return true; }
  return false;
}
}
using namespace vp;
extern "C" {
#define W1(n) int __real_##n(const char*); int __wrap_##n(const char* p){ int r; if(gate(#n,p,nullptr,r)) return r; r=__real_##n(p); if(recording) effects.back().result=r; return r; }
W1(remove) W1(unlink) W1(rmdir)
int __real_chdir(const char*); int __wrap_chdir(const char* p){ int r; if(recording){ ++count["chdir"]; effects.push_back({"chdir",p,"",0}); } return __real_chdir(p); }
#define W2(n) int __real_##n(const char*,const char*); int __wrap_##n(const char* a,const char* b){ int r; if(gate(#n,a,b,r)) return r; r=__real_##n(a,b); if(recording) effects.back().result=r; return r; }
W2(rename) W2(link)
int __real_symlink(const char*,const char*); int __wrap_symlink(const char* a,const char* b){ int r; if(gate("symlink",b,nullptr,r)) return r; return __real_symlink(a,b); }
int __real_mkdir(const char*,mode_t); int __wrap_mkdir(const char* p,mode_t m){ int r; if(gate("mkdir",p,nullptr,r)) return r; r=__real_mkdir(p,m); if(recording) effects.back().result=r; return r; }
int __real_chmod(const char*,mode_t); int __wrap_chmod(const char* p,mode_t m){ int r; if(gate("chmod",p,nullptr,r)) return r; return __real_chmod(p,m); }
int __real_truncate(const char*,off_t); int __wrap_truncate(const char* p,off_t m){ int r; if(gate("truncate",p,nullptr,r)) return r; return __real_truncate(p,m); }
int __real_utime(const char*,const void*); int __wrap_utime(const char* p,const void* m){ int r; if(gate("utime",p,nullptr,r)) return r; return __real_utime(p,m); }
int __wrap_chown(const char* p,uid_t,gid_t){ int r; if(gate("chown",p,nullptr,r)) return r; return 0; }
int __wrap_lchown(const char* p,uid_t,gid_t){ int r; if(gate("chown",p,nullptr,r)) return r; return 0; }
int __real_creat(const char*,mode_t); int __wrap_creat(const char* p,mode_t m){ int r; if(gate("creat",p,nullptr,r)) return r; r=__real_creat(p,m); if(recording) effects.back().result=r<0?-1:0; return r; }
int __wrap_creat64(const char* p,mode_t m){ return __wrap_creat(p,m); }
int __real_open(const char*,int,...);
int __wrap_open(const char* p,int fl,...){ va_list v; va_start(v,fl); mode_t m=(fl&O_CREAT)?va_arg(v,mode_t):0; va_end(v); if((fl&O_ACCMODE)!=O_RDONLY||(fl&(O_CREAT|O_TRUNC))){ int r; if(gate("open_w",p,nullptr,r)) return r; r=__real_open(p,fl,m); if(recording) effects.back().result=r<0?-1:0; return r; } if(recording) ++count["open_r"]; return __real_open(p,fl,m); }
int __wrap_open64(const char* p,int fl,...){ va_list v; va_start(v,fl); mode_t m=(fl&O_CREAT)?va_arg(v,mode_t):0; va_end(v); return __wrap_open(p,fl,m); }
FILE* __real_fopen(const char*,const char*);
FILE* __wrap_fopen(const char* p,const char* m){ if(m&&(m[0]!='r'||strchr(m,'+'))){ int r; if(gate("fopen_w",p,nullptr,r)) return nullptr; } else if(recording){ auto i=failAt.find("fopen_r"); if(i!=failAt.end()&&i->second>0&&--i->second==0){ errno=EIO; return nullptr; } } return __real_fopen(p,m); }
FILE* __wrap_fopen64(const char* p,const char* m){ return __wrap_fopen(p,m); }
void* __real_opendir(const char*); void* __wrap_opendir(const char* p){ if(recording){ ++count["opendir"]; auto i=failAt.find("opendir"); if(i!=failAt.end()&&i->second>0&&--i->second==0){ errno=EIO; return nullptr; } } return __real_opendir(p); }
int __real_fsync(int); int __wrap_fsync(int fd){ char l[64],b[4096]; snprintf(l,64,"/proc/self/fd/%d",fd); ssize_t n=readlink(l,b,sizeof b-1); b[n>0?n:0]=0; int r; if(gate("fsync",n>0?b:nullptr,nullptr,r)) return r; return __real_fsync(fd); }
int __real_flock(int,int); int __wrap_flock(int fd,int op){ if(recording){ ++count["flock"]; effects.push_back({"flock",std::to_string(op),"",0}); if(onEffect) onEffect(effects.back()); } if(flockFail){ errno=flockFail; return -1; } return __real_flock(fd,op); }
pid_t __real_getuid(void); uid_t __wrap_getuid(void){ return fakeUid; } uid_t __wrap_geteuid(void){ return fakeUid; }
pid_t __real_fork(void);
// fakeFork: -1 fork is recorded and pretends a child that succeeded (no process is made); -2: fork fails; 0: the caller is told it is the child; 1: the real fork
pid_t __wrap_fork(void){ if(recording){ ++count["fork"]; } if(fakeFork==1) return __real_fork(); if(fakeFork==-2){ errno=EAGAIN; return -1; } if(fakeFork==0) return 0; return 4242; }
pid_t __real_waitpid(pid_t,int*,int); pid_t __wrap_waitpid(pid_t p,int* st,int o){ if(fakeFork==1) return __real_waitpid(p,st,o); if(fakeWait){ errno=EINTR; return -1; } if(st) *st=fakeStatus; return p; }
int __wrap_system(const char* c){ execs.push_back(c?c:""); return 0; }
int __wrap_execl(const char* p,const char* a,...){ if(realExec){ std::vector<char*> v; va_list l; va_start(l,a); for(const char* x=a;x;x=va_arg(l,const char*)) v.push_back((char*)x); va_end(l); v.push_back(nullptr); return execv(p,v.data()); } std::string s=p; va_list v; va_start(v,a); const char* x=a; while(x){ s+=std::string("\x1f")+x; x=va_arg(v,const char*);} va_end(v); execs.push_back(s); errno=ENOENT; return -1; }
char* __real_mkdtemp(char*); char* __wrap_mkdtemp(char* t){ if(!inside(t)){ errno=EACCES; return nullptr;} return __real_mkdtemp(t); }
int __real_archive_read_extract(struct archive*,struct archive_entry*,int);
int __wrap_archive_read_extract(struct archive* a,struct archive_entry* e,int f){ const char* p=archive_entry_pathname(e); int r=0; extracted.push_back(p?p:""); if(gate("extract",p,nullptr,r)) return ARCHIVE_FATAL; if(fakeExtract) return extractFail?ARCHIVE_FATAL:ARCHIVE_OK; r=__real_archive_read_extract(a,e,f); effects.empty()?(void)0:(void)(effects.back().result=r); return r; }
}
int main(){
  out=fdopen(dup(1),"w"); fcntl(fileno(out),F_SETFD,FD_CLOEXEC); int n=__real_open("/dev/null",O_RDWR); dup2(n,1); if(!getenv("VP_DEBUG")) dup2(n,2);
  const char* s=getenv("VP_SCRATCH"); if(!s) return 77; char b[4096]; if(!realpath(s,b)) return 77; scr=b;
  const char* sd=getenv("VP_SEED"); S=sd?strtoull(sd,0,10)*0x100000001b3ULL+12345:1;
  (void)!__real_chdir(scr.c_str());
  try{ battery(); } catch(const std::exception& e){ fprintf(out,"@FAIL exception \"battery stopped by %s\"\n",e.what()); ++fails; }
  fprintf(out,"@CASES %ld %ld\n",cases,nontrivial); fflush(out); _exit(fails?1:0);
}
