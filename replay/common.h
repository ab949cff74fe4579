// Replay battery support: runs the real code of /repo inside a scratch directory, records and confines its effects.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <cstdint>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <memory>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <string.h>
#include <errno.h>
namespace vp {
struct Effect { std::string kind, path, path2; int result; };
extern std::vector<Effect> effects;        // calls made by the code under test
extern bool recording;
extern std::map<std::string,int> failAt;   // kind -> fail the n-th next call of this kind (1 = next)
extern int crashAt;                        // end the process (status 99) before the n-th next effect (1 = next), 0 = never
extern std::map<std::string,int> count;    // calls per kind
extern uid_t fakeUid; 
extern std::vector<std::string> execs;     // command lines of execl
extern int failErrno; extern bool realExec; extern int fakeFork;                       // see common.cc
extern int fakeStatus; extern int fakeWait;
extern std::function<void(const Effect&)> onEffect;
extern std::vector<std::string> extracted; // archive entries handed to the disk writer
extern bool fakeExtract;
extern bool extractFail;
extern int flockFail;
uint64_t rnd(); int rnd(int n);            // deterministic in VERIF_SEED
bool coin(int pct=50);
void seed(uint64_t s);
const std::string& scratch();
std::string fresh(const std::string& base="d");   // new empty directory below the scratch directory
void start(const std::string& desc);       // current case (reported if the code crashes or hangs)
void fail(const std::string& key,const std::string& desc);
void sample(const std::string& desc);
extern long cases, nontrivial;
void rule(const std::string& r);
void skip(const std::string& r);
std::string js(const std::string& s);
template<class C> std::string jl(const C& c){ std::string r="["; bool f=true; for(auto& x:c){ if(!f) r+=","; f=false; r+=js(x);} return r+"]"; }
bool exists(const std::string& p); bool isdir(const std::string& p);
void mkdirs(const std::string& p); void put(const std::string& p,const std::string& content); std::string get(const std::string& p);
std::set<std::string> tree(const std::string& root);   // relative paths of everything below root (directories end with /)
void wipe(const std::string& p);
bool thorough();
int scale(int quick,int thorough_);
void reset();                              // clear the effect log and faults
int real_fork(); 
// run f in a child process; returns wait status
int inChild(std::function<int()> f,int timeout_s=20);
// run f in a child process for which the directory root is the root of the filesystem (in a user namespace of its own); exit status 77: not possible here
int inRoot(const std::string& root,std::function<int()> f,int timeout_s=20);
struct Pkg { std::string name,version; int release=1; std::string collection="base"; std::set<std::string> files,alias,conflicts; std::vector<std::string> sets,categories; bool dependency=false; std::vector<std::pair<std::string,std::string>> deps; std::string extra; long build=1; };
}
void battery();
