#pragma once
#include "gen.h"
#include "pkgadd.h"
#include <regex.h>
using namespace vp; using namespace gen;
static const char* PATS[]={"^etc/.*$","conf$","^usr/bin","lib","^.*$","x\\.so","(^a$)|b","^usr/lib/.*\\.so$","zzz","/$","d",".*\\.conf"};
static bool rx(const std::string& p,const std::string& f){ regex_t r; if(regcomp(&r,p.c_str(),REG_EXTENDED|REG_NOSUB)) return false; bool ok=!regexec(&r,f.c_str(),0,0,0); regfree(&r); return ok; }
static std::vector<rule_t> rules(int n,int special){ std::vector<rule_t> v; for(int i=0;i<n;i++){ rule_t r; r.event=(cards::rule_event_t)(coin(special)?1+rnd(2):rnd(13)); if(coin(15)) r.event=cards::LDCONF; r.pattern=PATS[rnd(12)]; r.action=coin(55); v.push_back(r);} return v; }
static std::string rjs(const std::vector<rule_t>& v){ std::string d="["; for(size_t i=0;i<v.size();i++) d+=(i?",":"")+std::string("[")+std::to_string((int)v[i].event)+","+js(v[i].pattern)+","+(v[i].action?"\"YES\"":"\"NO\"")+"]"; return d+"]"; }
static int lastmatch(const std::vector<rule_t>& v,const std::string& f,int mode){ for(int i=(int)v.size()-1;i>=0;i--){ int e=v[i].event; bool s=mode==100?(e!=cards::INSTALL&&e!=cards::UPGRADE):e==mode; if(s&&rx(v[i].pattern,f)) return i; } return -1; }
struct Add { pkgadd a; Add(const std::string& R):a("pkgadd"){ quiet(a,R); } ~Add(){ a.m_postInstallList.clear(); } };
