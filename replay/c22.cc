#include "gen.h"
#include "string_utils.h"
using namespace vp;
void battery(){
  rule("all 65536 values of the sixteen mode bits, and the same with higher bits set; exhaustive");
  auto L=[](unsigned m){ std::string s; switch(m&0170000){ case 0100000: s="-"; break; case 0040000: s="d"; break; case 0120000: s="l"; break; case 0020000: s="c"; break; case 0060000: s="b"; break; case 0140000: s="s"; break; case 0010000: s="p"; break; default: s="?"; }
    struct { unsigned r,w,x,sp; char u,l; } T[]={{0400,0200,0100,04000,'S','s'},{040,020,010,02000,'S','s'},{4,2,1,01000,'T','t'}};
    for(auto& t:T){ s+=(m&t.r)?'r':'-'; s+=(m&t.w)?'w':'-'; s+=(m&t.sp)?((m&t.x)?t.l:t.u):((m&t.x)?'x':'-'); } return s; };
  for(unsigned m=0;m<0x10000;m++) for(unsigned hi:{0u,0x10000u,0xffff0000u}){ unsigned mm=m|hi; std::string d="{\"mode\":"+std::to_string(mm)+"}"; if(m%4096==0) start(d); ++cases; if(m&07000) ++nontrivial; auto g=mtos(mm); if(g!=L(mm)) fail("wrong-mode-string","{\"mode\":"+std::to_string(mm)+",\"got\":"+js(g)+",\"want\":"+js(L(mm))+"}"); }
  sample("{\"mode\":35309}");
}
