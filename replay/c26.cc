#include "gen.h"
#include "file_utils.h"
#include <sys/socket.h>
#include <sys/un.h>
using namespace vp;
static std::string content(int n,int seedc){ std::string s(n,0); uint64_t x=seedc*7919+13; for(int i=0;i<n;i++){ x=x*6364136223846793005ULL+1; s[i]=(char)(x>>56); if(i%97==0) s[i]=0; } return s; }
static int mk(const std::string& p,int kind,const std::string& c){ if(kind==0){ put(p,c); return 0; } if(kind==1) return symlink(c.c_str(),p.c_str()); if(kind==2) return mkdir(p.c_str(),0755); if(kind==3) return mkfifo(p.c_str(),0644); return 0; }
void battery(){
  rule("pairs of regular files with sizes around multiples of the buffer size and a difference at any offset, one longer than the other, with NUL bytes; symbolic links with equal, different and prefix targets; directories, fifos, missing paths, unreadable files, links to equal files; permission pairs over every mode bit; non-trivial: both sides examined and of the same kind");
  int N=scale(700,8000); static const int sizes[]={0,1,2,100,4095,4096,4097,8191,8192,8193,10000,12288,16383,16384,16385,24576,30000};
  for(int it=0;it<N;it++){
    std::string D=fresh("e"),a=D+"/a",b=D+"/b"; int k1=rnd(10)<6?0:rnd(5),k2=coin(80)?k1:rnd(5);
    std::string c1,c2; std::string desc;
    int n=coin(60)?sizes[rnd(17)]:rnd(40000),s=rnd(1000); c1=content(n,s); c2=c1; int how=rnd(6); std::string hn="same";
    if(how==1&&n){ int at=coin(40)?n-1:coin(40)?0:coin()&&n>8192?8192+rnd(n-8192):rnd(n); c2[at]^=1+rnd(255); hn="differ@"+std::to_string(at); if(c2==c1) c2[at]^=1; } else if(how==2){ c2+=content(1+rnd(3),s+1); hn="longer"; } else if(how==3){ c2+=content(8192,s+2); hn="longer by a block"; } else if(how==4&&n){ c2.pop_back(); hn="shorter"; }
    if(k1==1||k2==1){ int m=coin(30)?1+rnd(4000):1+rnd(20); std::string t1,t2; for(int i=0;i<m;i++){ t1+=(i%200==199)?'/':(char)('a'+rnd(3)); } t2=t1; if(how==1) t2[rnd(m)]='z'; else if(how==2||how==3) t2+="q"; else if(how==4&&m>1) t2.pop_back(); c1=k1==1?t1:c1; c2=k2==1?t2:c2; }
    mk(a,k1,c1); mk(b,k2,c2); bool ex1=k1!=4,ex2=k2!=4;
    bool want=ex1&&ex2&&k1==k2&&(k1==0||k1==1)&&c1==c2;
    static const char* kn[]={"file","link","dir","fifo","missing"};
    desc=std::string("{\"kinds\":[\"")+kn[k1]+"\",\""+kn[k2]+"\"],\"size\":"+std::to_string(c1.size())+",\"size2\":"+std::to_string(c2.size())+",\"difference\":\""+hn+"\"}"; start(desc); if(it<2) sample(desc);
    if(ex1&&ex2&&k1==k2) ++nontrivial;
    alarm(20); bool g=checkFilesEqual(a,b),h=checkFilesEqual(b,a); alarm(0);
    if(g!=want||h!=want) fail(want?"equal-files-differ":"different-files-equal","{\"got\":["+std::to_string(g)+","+std::to_string(h)+"],\"case\":"+desc+"}");
    // permissions
    if(ex1&&ex2&&k1!=1&&k2!=1){ mode_t m1=rnd(4096),m2=coin()?m1:(coin()?m1^(1<<rnd(12)):rnd(4096)); chmod(a.c_str(),m1); chmod(b.c_str(),m2); uid_t u1=0,u2=0,g1=0,g2=0; if(geteuid()==0){ u1=rnd(3);u2=coin(70)?u1:rnd(3);g1=rnd(3);g2=coin(70)?g1:rnd(3); if(lchown(a.c_str(),u1,g1)||lchown(b.c_str(),u2,g2)){} chmod(a.c_str(),m1); chmod(b.c_str(),m2);} 
      struct stat s1,s2; lstat(a.c_str(),&s1); lstat(b.c_str(),&s2); bool wp=s1.st_mode==s2.st_mode&&s1.st_uid==s2.st_uid&&s1.st_gid==s2.st_gid; char o[99]; snprintf(o,99,"%o:%d:%d %o:%d:%d",s1.st_mode,s1.st_uid,s1.st_gid,s2.st_mode,s2.st_uid,s2.st_gid);
      if(checkPermissionsEqual(a,b)!=wp||checkPermissionsEqual(b,a)!=wp) fail(wp?"equal-permissions-differ":"different-permissions-equal",js(o)); }
    if(!ex1||!ex2) { if(checkPermissionsEqual(a,b)) fail("permissions-of-missing",desc); }
    chmod(a.c_str(),0700); chmod(b.c_str(),0700); wipe(D);
  }
  // devices, when the sandbox has them
  struct stat x,y; start("{\"devices\":true}"); if(!lstat("/dev/null",&x)&&!lstat("/dev/zero",&y)&&S_ISCHR(x.st_mode)&&S_ISCHR(y.st_mode)){ if(checkFilesEqual("/dev/null","/dev/zero")!=(x.st_rdev==y.st_rdev)) fail("devices","\"/dev/null /dev/zero\""); }
  // a link and a regular file with the link's target as content, a link to an equal file
  std::string D=fresh("e"); put(D+"/a","b"); put(D+"/b","b"); if(symlink("b",(D+"/l").c_str())){} if(checkFilesEqual(D+"/a",D+"/l")||checkFilesEqual(D+"/l",D+"/b")) fail("link-equals-file","\"\"");
}
