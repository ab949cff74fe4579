#include "gen.h"
#include "string_utils.h"
#include "file_utils.h"
#include <list>
using namespace vp;
typedef std::string S;
static bool sp(char c){ return c==' '||(c>=9&&c<=13); }
static S text(int n,const S& al){ S s; for(int i=0;i<n;i++) s+=al[rnd((int)al.size())]; return s; }
template<class C> static std::vector<S> V(const C& c){ return std::vector<S>(c.begin(),c.end()); }
static std::vector<S> runs(const S& s,const S& d){ std::vector<S> r; S b; for(char c:s) if(d.find(c)!=S::npos){ if(b.size()) r.push_back(b); b=""; } else b+=c; if(b.size()) r.push_back(b); return r; }
static void one(const S& s,char d,const S& t){
  ++cases; if(s.find(d)!=S::npos) ++nontrivial;
  auto j=[&](const S& what,const S& got,const S& want){ return "{\"call\":"+js(what)+",\"text\":"+js(s)+",\"delimiter\":"+js(S(1,d))+",\"other\":"+js(t)+",\"got\":"+js(got)+",\"want\":"+js(want)+"}"; };
  auto eq=[&](const char* what,const S& got,const S& want){ if(got!=want) fail(S("wrong-")+what,j(what,got,want)); };
  auto eqv=[&](const char* what,const std::vector<S>& got,const std::vector<S>& want){ if(got!=want) fail(S("wrong-")+what,j(what,jl(got),jl(want))); };
  auto want=runs(s,S(1,d));
  eqv("parseDelimitedVectorList",V(parseDelimitedVectorList(s,d)),want);
  eqv("parseDelimitedListList",V(parseDelimitedListList(s,d)),want);
  if(s.find('\0')==S::npos&&d){ S D(1,d); eqv("parseDelimitedVectorList-c",parseDelimitedVectorList(s,D.c_str()),want); eqv("parseDelimitedSetList",V(parseDelimitedSetList(s,D.c_str())),V(std::set<S>(want.begin(),want.end())));
    D+=':'; want=runs(s,D); eqv("parseDelimitedVectorList-c",parseDelimitedVectorList(s,D.c_str()),want); }
  size_t a=0,b=s.size(); while(a<b&&sp(s[a])) ++a; while(b>a&&sp(s[b-1])) --b; eq("stripWhiteSpace",stripWhiteSpace(s),s.substr(a,b-a));
  S lo=s,up=s; for(auto& c:lo) if(c>='A'&&c<='Z') c+=32; for(auto& c:up) if(c>='a'&&c<='z') c-=32;
  eq("convertToLowerCase",convertToLowerCase(s),lo); eq("convertToUpperCase",convertToUpperCase(s),up);
  auto U=[](S x){ for(auto& c:x) if(c>='a'&&c<='z') c-=32; return x; };
  for(const S& q:{t,s,S(),lo.substr(0,lo.size()/2),up.substr(0,up.size()/2),up.substr(0,up.size()-(up.size()>0)),s+"x"}){ bool g=startsWithNoCase(s,q),w=U(s).compare(0,q.size(),U(q))==0&&q.size()<=s.size(); if(g!=w) fail("wrong-startsWithNoCase",j("startsWithNoCase "+q,g?"true":"false",w?"true":"false")); }
  size_t p=s.find(d),r=s.rfind(d); S af=p!=S::npos?s.substr(p+1):"";
  eq("getValue",getValue(s,d),af); eq("getFirstValueOfKeyAfterDelim",getFirstValueOfKeyAfterDelim(s,d),af);
  eq("getValueBefore",getValueBefore(s,d),p!=S::npos?s.substr(0,p):s); eq("getValueBeforeLast",getValueBeforeLast(s,d),r!=S::npos?s.substr(0,r):s);
  S f; for(char c:s) if(!(c=='/'&&f.size()&&f.back()=='/')) f+=c; eq("trimFileName",trimFileName(s),f);
}
void battery(){
  rule("every text of up to 5 characters over {space, tab, a, A, slash, colon}, and random texts of up to 40 characters over letters, punctuation, white space of all six kinds, doubled slashes and control characters, each with every delimiter of its alphabet");
  S al=" \taA/:"; 
  for(int n=0;n<=scale(4,5);n++){ long N=1; for(int i=0;i<n;i++) N*=al.size(); for(long v=0;v<N;v++){ S s; long x=v; for(int i=0;i<n;i++){ s+=al[x%al.size()]; x/=al.size(); } if(v%64==0) start("{\"text\":"+js(s)+"}"); char d=al[rnd((int)al.size())]; one(s,d,text(rnd(4),al)); } }
  S big="abzAZ@[`{09 \t\n\v\f\r\x1c\x1f\x08\x0e///::,.;#=-_~"; big+=S("\x01\x7f",2);
  for(int i=0;i<scale(6000,60000);i++){ S s=coin(8)?text(rnd(300),big):text(rnd(40),big); if(coin(10)) s=S(rnd(6),' ')+s+S(rnd(6),'\t'); if(coin(10)) s+=S(rnd(9),'/'); char d=coin(70)?big[rnd((int)big.size())]:s.size()?s[rnd((int)s.size())]:','; start("{\"text\":"+js(s)+",\"delimiter\":"+js(S(1,d))+"}"); one(s,d,text(rnd(6),"abAB")); }
  for(const S& s:{S("\t \v\f\r\n"),S(" \v"),S("/"),S("//"),S("////"),S("a=b=c"),S("=")}) for(char d:{'=','/',' ','\t'}) one(s,d,"a");
  sample("{\"text\":\"  a::b \",\"delimiter\":\":\"}");
}
