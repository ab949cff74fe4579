#include "world.h"
#include "pkgrepo.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <sys/utsname.h>
using namespace vp; using namespace gen;
struct Key { EVP_PKEY* k; Key(){ k=nullptr; auto* c=EVP_PKEY_CTX_new_id(EVP_PKEY_ED25519,nullptr); EVP_PKEY_keygen_init(c); EVP_PKEY_generate(c,&k); EVP_PKEY_CTX_free(c); }
  void pub(const std::string& f){ FILE* o=fopen(f.c_str(),"w"); PEM_write_PUBKEY(o,k); fclose(o); } };
static std::string sha(const std::string& d){ unsigned char h[64]; unsigned n=0; EVP_Digest(d.data(),d.size(),h,&n,EVP_sha512(),nullptr); return std::string((char*)h,n); }
static std::string hex(const std::string& b){ std::string r; char t[3]; for(unsigned char c:b){ snprintf(t,3,"%02x",c); r+=t; } return r; }
static std::string sign(Key& k,const std::string& m){ auto* c=EVP_MD_CTX_new(); EVP_DigestSignInit(c,nullptr,nullptr,nullptr,k.k); unsigned char s[64]; size_t n=64; EVP_DigestSign(c,s,&n,(const unsigned char*)m.data(),m.size()); EVP_MD_CTX_free(c); return hex(std::string((char*)s,n)); }
static std::string swapcase(std::string s,bool some){ for(auto& c:s) if(!some||coin()) c=isupper(c)?tolower(c):toupper(c); return s; }
struct P { std::string name,coll,file; std::set<std::string> deps; std::string good,disk,hash,sig; bool remote=false,present=true,listed=true; std::string remoteBytes; int what=0; };
void battery(){
  rule("random repositories (1-3 collections with their own keys, 1-6 packages with dependencies recorded in their archives; archives of every size class) in which single packages are signed correctly, signed over other content, with another collection's key, with no, a short, a shuffled or a non-hexadecimal signature, tampered with after signing, absent, replaced on the server, or whose recorded hash differs in case or content: the selection must succeed only when every archive read on the way verifies against the key of its collection, and must otherwise raise an error and leave the list of packages as it was; hash comparison and signature verification are also called alone");
  Key K[4]; int N=scale(400,4000); bool can=true; struct utsname un; uname(&un); std::string mach=un.machine;
  for(int it=0;it<N&&can;it++){
    std::string R=newRoot(); int nc=1+rnd(3); static const char* CN[]={"base","cli","gui"}; bool url=!coin(8);
    bool nokey[3]={coin(4),coin(4),coin(4)}; std::string cf="version 12\n"; if(url) cf+="url file:///remote\n"; int badkey=coin(6)?rnd(nc):-1;
    for(int c=0;c<nc;c++){ cf+=std::string("dir /depot/")+CN[c]+(coin(80)?"|file:///remote":"")+"\n"; mkdirs(R+"depot/"+CN[c]); mkdirs(R+"remote/"+mach+"/12/"+CN[c]); if(!nokey[c]){ if(badkey==c) put(R+"depot/"+CN[c]+"/.PKEY","not a key\n"); else K[c].pub(R+"depot/"+CN[c]+"/.PKEY"); } }
    put(R+"etc/cards.conf",cf); put(R+"remote/.x","");
    int n=1+rnd(6); std::vector<P> ps(n); std::map<std::string,int> at; std::string d="{\"url\":"+std::string(url?"true":"false")+",\"packages\":[";
    static const char* WH[]={"signed","signature of another content","signed by another key","no signature","half a signature","not a hexadecimal signature","changed after signing","archive absent, on the server","archive absent","hash in other letter case","other hash in the index","replaced on the server by an unsigned one","not in the index","one digit of the signature changed","hash with a suffix","one byte of the archive changed","a signature with one digit more"};
    int faults=coin(35)?0:1; int victim=rnd(n);
    for(int i=0;i<n;i++){ P& p=ps[i]; p.name=std::string("pack")+char('a'+i); if(coin(15)) p.name+=".lib"; int c=rnd(nc); p.coll=CN[c]; at[p.name]=i; p.file=p.name+".cards-1.0-"+mach+".tar"; 
      for(int j=0;j<i;j++) if(coin(40)) p.deps.insert(ps[j].name);
      std::vector<std::string> m{"N"+p.name,"V1.0","r1","B1700000000","aany","c"+p.coll}; for(auto& x:p.deps) m.push_back("R"+x+"1700000000");
      std::string body; if(coin(70)){ int sz[]={10,3000,8192,20000,40960,0,33000,5000}; body=std::string(sz[rnd(8)],'x'); for(auto& ch:body) ch=char(rnd(256)); }
      std::string tmp=R+"tmp.tar"; mkpkg(tmp,m,{".META",".MTREE","usr/f"},{{"usr/f",body}}); p.good=p.disk=get(tmp); unlink(tmp.c_str()); p.hash=hex(sha(p.good)); p.sig=sign(K[c],sha(p.good)); p.remoteBytes=p.good;
      p.what=(faults&&i==victim)||coin(4)?rnd(17):coin(15)?(coin()?9:7):0;
      if(p.what==12&&i==0&&n>1) p.what=0;
      switch(p.what){ case 1: p.sig=sign(K[c],sha(p.good+"x")); break; case 2: p.sig=sign(K[(c+1+rnd(3))%4],sha(p.good)); break; case 3: p.sig=""; break; case 4: p.sig=p.sig.substr(0,64); break; case 5: p.sig=std::string(128,'z'); break;
        case 6: p.disk+="tail"; p.hash=hex(sha(p.disk)); break; case 7: p.present=false; p.remote=true; break; case 8: p.present=false; break; case 9: p.hash=swapcase(p.hash,coin()); break; case 10: p.hash=hex(sha("other")); p.remote=coin(); break;
        case 11: p.disk=p.good+"old"; p.remote=true; p.remoteBytes=p.good+"evil"; break; case 12: p.listed=false; break; case 13: { int k=rnd(128); p.sig[k]=p.sig[k]=='0'?'1':'0'; } break; case 14: p.hash+="00"; p.remote=true; break; case 16: p.sig+="0"; break; case 15: { size_t k=p.disk.size()-1-rnd(coin()?p.disk.size():8192<p.disk.size()?8192:p.disk.size()); p.disk[k]^=1<<rnd(8); } break; }
      if(p.present) put(R+"depot/"+p.coll+"/"+p.file,p.disk); if(p.remote) put(R+"remote/"+mach+"/12/"+p.coll+"/"+p.file,p.remoteBytes);
      d+=(i?",":"")+std::string("{\"name\":")+js(p.name)+",\"collection\":"+js(p.coll)+",\"is\":"+js(WH[p.what])+",\"archive\":"+std::to_string(p.disk.size())+",\"depends\":"+jl(p.deps)+"}"; }
    for(int c=0;c<nc;c++){ std::string s; for(auto& p:ps) if(p.listed&&p.coll==CN[c]){ s+="@"+p.file+"\nN"+p.name+"\nV1.0\nr1\nB1700000000\n"; for(auto& x:p.deps) s+="R"+x+"1700000000\n"; s+="c"+p.coll+"\nH"+p.hash+"\n"; if(!p.sig.empty()) s+="I"+p.sig+"\n"; s+="\n"; } put(R+"depot/"+CN[c]+"/.REPO",s); }
    std::string want=ps[coin(70)?n-1:rnd(n)].name; d+="],\"asked\":"+js(want)+",\"no key\":["; for(int c=0;c<nc;c++) if(nokey[c]||badkey==c) d+=(d.back()=='['?"":",")+js(CN[c]); d+="]}"; start(d); if(it<3) sample(d); if(n>2&&url) ++nontrivial;
    // what the signatures say: a package may be selected when the archive finally on disk verifies
    auto valid=[&](P& p,const std::string& bytes){ int c=0; while(p.coll!=CN[c]) c++; if(nokey[c]||badkey==c||p.sig.size()!=128) return false; std::string s; for(size_t i=0;i<128;i+=2){ char* e; std::string h=p.sig.substr(i,2); long v=strtol(h.c_str(),&e,16); if(*e) return false; s+=char(v); } auto* x=EVP_MD_CTX_new(); EVP_DigestVerifyInit(x,nullptr,nullptr,nullptr,K[c].k); std::string m=sha(bytes); int r=EVP_DigestVerify(x,(const unsigned char*)s.data(),s.size(),(const unsigned char*)m.data(),m.size()); EVP_MD_CTX_free(x); return r==1; };
    int st=inRoot(R,[&]()->int{ std::ostringstream os; auto* ob=std::cout.rdbuf(os.rdbuf()); auto* eb=std::cerr.rdbuf(os.rdbuf()); int fd=dup(2); freopen("/dev/null","w",stderr); int nul=open("/etc/null",O_WRONLY|O_CREAT,0600); dup2(nul,2);
      auto t=[&](const char* k,const std::string& x){ std::cout.rdbuf(ob); fail(k,"{\"what\":"+js(x)+",\"case\":"+d+"}"); std::cout.rdbuf(os.rdbuf()); };
      { cards::pkgrepo r("/etc/cards.conf"); r.m_dbh.m_postInstallList.clear(); std::pair<std::string,time_t> pre{"already",1}; r.addDependenciesList(pre); bool ok=true; std::string why;
        try{ if(coin()) r.generateDependencies(want); else r.generateDependencies(std::make_pair(want,(time_t)1700000000)); }catch(std::exception& e){ ok=false; why=e.what(); }
        auto L=r.getDependenciesList();
        if(L.empty()||L[0]!=pre) t("lost","what was selected before is no longer in the list");
        if(!ok&&L.size()!=1) t("added-after-error","the selection failed ("+why+") and still lists "+L.back().first);
        if(url&&ok){ std::set<std::string> all; std::vector<std::string> q{want}; while(!q.empty()){ auto x=q.back(); q.pop_back(); if(!all.insert(x).second) continue; for(auto& y:ps[at[x]].deps) q.push_back(y); }
          for(auto& x:all){ P& p=ps[at[x]]; if(!p.listed){ t("unknown-accepted",x); continue; } if(!valid(p,get("/depot/"+p.coll+"/"+p.file))) t("unsigned-accepted",x+": "+WH[p.what]); }
          for(size_t i=1;i<L.size();i++) if(!all.count(L[i].first)) t("unrelated-selected",L[i].first); } }
      // verification and comparison alone
      for(int q=0;q<2;q++){ cards::pkgrepo r("/etc/cards.conf"); r.m_dbh.m_postInstallList.clear(); P& p=ps[rnd(n)]; if(!p.listed||!exists("/depot/"+p.coll+"/"+p.file)) continue; std::string bytes=get("/depot/"+p.coll+"/"+p.file); r.parse();
        try{ r.generateHash("/depot/"+p.coll+"/"+p.file); if(r.m_packageFileNameHash!=hex(sha(bytes))) t("wrong-hash",p.name+": "+r.m_packageFileNameHash); }catch(std::exception&){}
        std::string a=hex(sha(bytes)),b=a; int m=rnd(7); if(m==1) b=swapcase(b,false); else if(m==2) b=swapcase(b,true); else if(m==3){ int k=rnd(128); b[k]=b[k]=='0'?'1':'0'; } else if(m==4) b=b.substr(0,rnd(128)); else if(m==5){ int k=rnd(128); b[k]=char((unsigned char)b[k]^0x20); if(!isalpha(a[k])) {} } else if(m==6) b=coin()?"":b+"0";
        r.m_packageFileNameHash=a; r.m_listOfPackages[p.name].hash(b); std::string la=a,lb=b; for(auto& c:la) if(c>='A'&&c<='Z') c+=32; for(auto& c:lb) if(c>='A'&&c<='Z') c+=32;
        if(r.checkHash(p.name)!=(la==lb)) t("hash-comparison",a+" against "+b);
        bool s=false; r.m_packageFileNameHash=coin()?a:hex(sha(p.good)); try{ s=r.checkSign(p.name); }catch(std::exception&){} if(s&&!valid(p,bytes)) t("verification",p.name+": "+WH[p.what]); }
      std::cout.rdbuf(ob); std::cerr.rdbuf(eb); dup2(fd,2); return 0; });
    if(WIFEXITED(st)&&WEXITSTATUS(st)==77){ skip("no user namespace available: the packages of a scratch repository cannot be selected"); can=false; }
    else if(st!=0) fail("crash","{\"status\":"+std::to_string(st)+",\"case\":"+d+"}");
    wipe(R.substr(0,R.size()-1));
  }
}
