// Native runtime: replays recorded input vectors through the natively compiled harness.
//   prog --replay ENTRY v1 v2 ...          one vector (hex); prints outcome
//   prog --validate FILE...                 files: "ENTRY\nP n v.. m o.." as written by sx; compares observations
#include "sx.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <csetjmp>
#include <unistd.h>
static std::vector<unsigned long long> in; static size_t pos; static std::vector<unsigned long long> obs; static jmp_buf jb; static std::string failmsg;
enum { ASSUME=1, FAIL=2, SHORT=3 };
static unsigned long long nx(){ if(pos>=in.size()) longjmp(jb,SHORT); return in[pos++]; }
extern "C" {
  int8_t sx_i8(const char*){ return (int8_t)nx(); } int16_t sx_i16(const char*){ return (int16_t)nx(); } int32_t sx_i32(const char*){ return (int32_t)nx(); } int64_t sx_i64(const char*){ return (int64_t)nx(); }
  double sx_f64(const char*){ unsigned long long u=nx(); double d; memcpy(&d,&u,8); return d; }
  int64_t sx_rng(const char*,unsigned w,int64_t,int64_t){ unsigned long long u=nx(); return w>=64?(int64_t)u:(int64_t)(u<<(64-w))>>(64-w); }
  bool sx_bool(const char*){ return nx()&1; }
  unsigned sx_choose(unsigned n){ if(n<=1) return 0; return (unsigned)nx(); }
  void sx_assume(bool b){ if(!b) longjmp(jb,ASSUME); }
  void sx_check(bool b,const char* m){ if(!b){ failmsg=m; longjmp(jb,FAIL); } }
  void sx_observe(uint64_t v){ obs.push_back(v); }
  void sx_noleak(){}
}
#ifdef SX_COUNT_HEAP
static long live=0;
void* operator new(size_t n){ live++; return malloc(n?n:1); } void* operator new[](size_t n){ live++; return malloc(n?n:1); }
void operator delete(void*p)noexcept{ if(p) live--; free(p);} void operator delete(void*p,size_t)noexcept{ if(p) live--; free(p);} void operator delete[](void*p)noexcept{ if(p) live--; free(p);} void operator delete[](void*p,size_t)noexcept{ if(p) live--; free(p);}
static long liveNow(){ return live; }
#else
static long liveNow(){ return 0; }
#endif
static void(*find(const char*n))(){ for(sx_Reg*r=sx_Reg::head();r;r=r->next) if(!strcmp(r->name,n)) return r->f; return nullptr; }
int main(int c,char**v){
  if(c>=3&&!strcmp(v[1],"--replay")){ const char*n=v[2]; if(!strncmp(n,"h_",2)) n+=2; void(*f)()=find(n); if(!f){ printf("NOENTRY\n"); return 9; } for(int i=3;i<c;i++) in.push_back(strtoull(v[i],0,16)); alarm(10);
    int r=setjmp(jb); if(r==0){ obs.reserve(4096); volatile long l0=liveNow(); f(); if(liveNow()!=l0){ printf("LEAK\n"); fflush(stdout); _exit(6); } printf("PASS\n"); fflush(stdout); _exit(0); } if(r==FAIL){ printf("FAIL %s\n",failmsg.c_str()); fflush(stdout); _exit(1); } if(r==ASSUME){ printf("ASSUME\n"); fflush(stdout); _exit(7); } printf("SHORT\n"); fflush(stdout); _exit(8); }
  if(c>=4&&!strcmp(v[1],"--validate")){ // ENTRY FILE pairs
    unsigned long ok=0,bad=0,total=0; for(int a=2;a+1<c;a+=2){ const char*n=v[a]; if(!strncmp(n,"h_",2)) n+=2; void(*volatile f)()=find(n); FILE*fp=fopen(v[a+1],"r"); if(!f||!fp){ printf("NOENTRY %s\n",n); return 9; }
      char tag[4]; size_t k; while(fscanf(fp,"%3s %zu",tag,&k)==2){ in.clear(); pos=0; obs.clear(); for(size_t i=0;i<k;i++){ unsigned long long x; if(fscanf(fp,"%llx",&x)!=1) return 9; in.push_back(x); } size_t m; if(fscanf(fp,"%zu",&m)!=1) return 9; std::vector<unsigned long long> ex; for(size_t i=0;i<m;i++){ unsigned long long x; if(fscanf(fp,"%llx",&x)!=1) return 9; ex.push_back(x); }
        total++; int r=setjmp(jb); if(r==0){ alarm(20); (*f)(); alarm(0); if(obs==ex&&pos==in.size()) ok++; else { bad++; if(bad<4){ printf("MISMATCH %s inputs",n); for(auto x:in) printf(" %llx",x); printf(" expected"); for(auto x:ex) printf(" %llx",x); printf(" got"); for(auto x:obs) printf(" %llx",x); printf("\n"); } } } else { bad++; if(bad<4){ printf("MISMATCH %s outcome %d %s inputs",n,r,failmsg.c_str()); for(auto x:in) printf(" %llx",x); printf("\n"); } } }
      fclose(fp); }
    printf("VALIDATED total=%lu ok=%lu bad=%lu\n",total,ok,bad); return bad?1:0; }
  return 9; }
