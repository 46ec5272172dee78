// Hash-consed bit-vector / boolean / IEEE expression DAG with local simplification, concrete evaluation
// under a model and translation to Z3.  Width-1 nodes are booleans.
#pragma once
#include <set>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <stdexcept>
#include <z3.h>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t { oConst, oVar, oAdd, oSub, oMul, oUDiv, oSDiv, oURem, oSRem, oAnd, oOr, oXor, oShl, oLShr, oAShr,
  oNot, oEq, oUlt, oUle, oSlt, oSle, oIte, oConcat, oExtract, oZExt, oSExt,
  oFEq, oFLt, oFLe, oFUno, oFAdd, oFSub, oFMul, oFDiv, oFNeg, oSIToFP, oUIToFP, oFPToSI, oFPToUI, oFPExt, oFPTrunc };

struct Node {
  Op op; uint16_t w; uint8_t nk; bool undef; bool mark;
  uint32_t lo; uint32_t id;
  u128 c; Node* k[3];
  Z3_ast z; uint64_t ep; u128 ev;
  int8_t li=0; Z3_ast zi=nullptr; s128 rl=0, rh=0;   // integer-arithmetic view: value as signed integer, static range
};
struct EngineErr : std::runtime_error { using std::runtime_error::runtime_error; };

inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline s128 sext(u128 v, unsigned w){ if(w>=128) return (s128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (s128)((v^s)-s); }

struct NHash { size_t operator()(const Node* n) const {
  uint64_t h = n->op*0x9E3779B97F4A7C15ull ^ ((uint64_t)n->w<<32) ^ ((uint64_t)n->lo<<17);
  h ^= (uint64_t)n->c*0xff51afd7ed558ccdull ^ (uint64_t)(n->c>>64);
  for(int i=0;i<n->nk;i++){ h = (h<<7|h>>57) ^ ((uint64_t)n->k[i]>>4)*0xc4ceb9fe1a85ec53ull; }
  return h ^ (h>>29); } };
struct NEq { bool operator()(const Node*a,const Node*b) const {
  if(a->op!=b->op||a->w!=b->w||a->lo!=b->lo||a->c!=b->c||a->nk!=b->nk) return false;
  for(int i=0;i<a->nk;i++) if(a->k[i]!=b->k[i]) return false; return true; } };

struct Pool {
  std::unordered_set<Node*,NHash,NEq> tab; std::vector<Node*> all; uint32_t nid=0;
  struct VarInfo { bool fp=false; bool ranged=false; s128 lo=0,hi=0; };
  std::vector<Node*> vars; std::vector<std::string> varName; std::vector<VarInfo> vinfo;
  std::unordered_map<std::string,Node*> varByName;
  Node* T; Node* F;
  Pool(){ tab.reserve(1<<16); T=cst(1,1); F=cst(0,1); }
  Node* intern(Op op,unsigned w,std::initializer_list<Node*> ks,u128 c=0,uint32_t lo=0){
    Node t; t.op=op;t.w=w;t.nk=ks.size();t.lo=lo;t.c=c; int i=0; for(auto k:ks) t.k[i++]=k;
    auto it=tab.find(&t); if(it!=tab.end()) return *it;
    Node* n=new Node(t); n->undef=false; n->mark=false; for(int j=0;j<n->nk;j++) n->undef|=n->k[j]->undef;
    n->id=nid++; n->z=nullptr; n->ep=0; n->ev=0; tab.insert(n); return n; }
  Node* cst(u128 v,unsigned w){ return intern(oConst,w,{},v&maskw(w)); }
  Node* boolc(bool b){ return b?T:F; }
  Node* var(const std::string& name,unsigned w,bool undef=false){
    std::string key=name+"#"+std::to_string(w); auto it=varByName.find(key); if(it!=varByName.end()) return it->second;
    Node* n=intern(oVar,w,{},0,vars.size()); n->undef=undef; vars.push_back(n); varName.push_back(name); vinfo.push_back(VarInfo()); varByName[key]=n; return n; }

  static bool isC(Node*n){return n->op==oConst;}
  static bool isC(Node*n,u128 v){return n->op==oConst&&n->c==(v&maskw(n->w));}

  // ---- concrete semantics
  static double bd(u128 v){ uint64_t x=(uint64_t)v; double d; memcpy(&d,&x,8); return d; }
  static float  bf(u128 v){ uint32_t x=(uint32_t)v; float d; memcpy(&d,&x,4); return d; }
  static u128 db(double d){ uint64_t x; memcpy(&x,&d,8); return x; }
  static u128 fb(float d){ uint32_t x; memcpy(&x,&d,4); return x; }
  static u128 cbin(Op op,unsigned w,u128 a,u128 b){ // operand width w
    u128 m=maskw(w); a&=m;b&=m;
    switch(op){
      case oAdd:return (a+b)&m; case oSub:return (a-b)&m; case oMul:return (a*b)&m;
      case oUDiv:return b? a/b : m; case oURem:return b? a%b : a;
      case oSDiv:{ s128 x=sext(a,w),y=sext(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(0-(u128)x)&m; return (u128)(x/y)&m; }
      case oSRem:{ s128 x=sext(a,w),y=sext(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
      case oAnd:return a&b; case oOr:return a|b; case oXor:return a^b;
      case oShl:return b>=w?0:(a<<(unsigned)b)&m; case oLShr:return b>=w?0:a>>(unsigned)b;
      case oAShr:{ s128 x=sext(a,w); unsigned s=b>=w?w-1:(unsigned)b; return (u128)(x>>s)&m; }
      case oEq:return a==b; case oUlt:return a<b; case oUle:return a<=b;
      case oSlt:return sext(a,w)<sext(b,w); case oSle:return sext(a,w)<=sext(b,w);
      default: throw EngineErr("cbin"); } }
  static u128 cfp(Op op,unsigned w,u128 a,u128 b){
    if(w==64){ double x=bd(a),y=bd(b); switch(op){ case oFEq:return x==y; case oFLt:return x<y; case oFLe:return x<=y; case oFUno:return x!=x||y!=y;
      case oFAdd:return db(x+y); case oFSub:return db(x-y); case oFMul:return db(x*y); case oFDiv:return db(x/y); default:; } }
    else if(w==32){ float x=bf(a),y=bf(b); switch(op){ case oFEq:return x==y; case oFLt:return x<y; case oFLe:return x<=y; case oFUno:return x!=x||y!=y;
      case oFAdd:return fb(x+y); case oFSub:return fb(x-y); case oFMul:return fb(x*y); case oFDiv:return fb(x/y); default:; } }
    throw EngineErr("fp width"); }
  static u128 ccast(Op op,unsigned w,unsigned fw,u128 a){ // to width w from width fw
    switch(op){
      case oSIToFP: return w==64? db((double)sext(a,fw)) : fb((float)sext(a,fw));
      case oUIToFP: return w==64? db((double)a) : fb((float)a);
      case oFPToSI:{ double d= fw==64? bd(a):bf(a); if(!(d>-9.3e18&&d<9.3e18)) return (u128)1<<(w-1); return (u128)(s128)(long long)d & maskw(w);}
      case oFPToUI:{ double d= fw==64? bd(a):bf(a); if(!(d>-1&&d<1.8e19)) return 0; return (u128)(unsigned long long)d & maskw(w);}
      case oFPExt: return db((double)bf(a)); case oFPTrunc: return fb((float)bd(a));
      case oFNeg: return a ^ ((u128)1<<(w-1));
      default: throw EngineErr("ccast"); } }

  // ---- constructors with simplification
  Node* Not(Node*a){ if(isC(a)) return boolc(!a->c); if(a->op==oNot) return a->k[0]; return intern(oNot,1,{a}); }
  Node* Ite(Node*c,Node*a,Node*b){
    if(isC(c)) return c->c?a:b; if(a==b) return a; if(c->op==oNot) return Ite(c->k[0],b,a);
    if(a->w==1){ if(isC(a,1)) return Or(c,b); if(isC(a,0)) return And(Not(c),b); if(isC(b,0)) return And(c,a); if(isC(b,1)) return Or(Not(c),a); }
    if(a->op==oIte&&a->k[0]==c) a=a->k[1]; if(b->op==oIte&&b->k[0]==c) b=b->k[2]; if(a==b) return a;
    if(a->op==oConcat||b->op==oConcat){ unsigned s=a->op==oConcat?a->k[1]->w:b->k[1]->w; Node*o=a->op==oConcat?b:a; // keep packed fields apart
      if(isC(o)||(o->op==oConcat&&o->k[1]->w==s)||(o->op==oZExt&&o->k[0]->w<=s)) return Concat(Ite(c,Extract(a,s,a->w-s),Extract(b,s,a->w-s)),Ite(c,Extract(a,0,s),Extract(b,0,s))); }
    return intern(oIte,a->w,{c,a,b}); }
  Node* Concat(Node*h,Node*l){
    if(isC(h)&&isC(l)) return cst(h->c<<l->w|l->c,h->w+l->w);
    if(isC(h,0)) return ZExt(l,h->w+l->w);
    if(h->op==oExtract&&l->op==oExtract&&h->k[0]==l->k[0]&&h->lo==l->lo+l->w) return Extract(h->k[0],l->lo,h->w+l->w);
    if(l->op==oConcat&&h->op==oExtract&&l->k[0]->op==oExtract&&l->k[0]->k[0]==h->k[0]&&h->lo==l->k[0]->lo+l->k[0]->w)
      return Concat(Extract(h->k[0],l->k[0]->lo,h->w+l->k[0]->w), l->k[1]);
    if(h->op==oSExt&&h->k[0]->w==1&&h->k[0]==Extract(l,l->w-1,1)) return SExt(l,h->w+l->w);
    if(h->w==1&&l->op!=oConst&&h==Extract(l,l->w-1,1)) return SExt(l,1+l->w);
    if(h->op==oConcat) return Concat(h->k[0], Concat(h->k[1],l)); // right assoc: k[0] atomic
    if(h->op==oZExt) return ZExt(Concat(h->k[0],l), h->w+l->w);
    return intern(oConcat,h->w+l->w,{h,l}); }
  Node* ZExt(Node*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return cst(a->c,w); if(a->op==oZExt) return ZExt(a->k[0],w); return intern(oZExt,w,{a}); }
  Node* SExt(Node*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return cst((u128)sext(a->c,a->w),w); if(a->op==oSExt) return SExt(a->k[0],w);
    if(a->op==oZExt) return ZExt(a->k[0],w); return intern(oSExt,w,{a}); }
  static unsigned low0(Node*a){ unsigned n=0; if(a->op==oConst){ while(n<a->w&&!((a->c>>n)&1)) n++; return n; } if(a->op==oConcat){ n=low0(a->k[1]); return n==a->k[1]->w? n+low0(a->k[0]) : n; } if(a->op==oZExt||a->op==oSExt) return low0(a->k[0]); if(a->op==oAdd||a->op==oSub){ unsigned x=low0(a->k[0]),y=low0(a->k[1]); return x<y?x:y; } return 0; }
  Node* Extract(Node*a,unsigned lo,unsigned w){
    if(lo==0&&w==a->w) return a; if(isC(a)) return cst(a->c>>lo,w);
    switch(a->op){
      case oExtract: return Extract(a->k[0],a->lo+lo,w);
      case oZExt:{ unsigned iw=a->k[0]->w; if(lo>=iw) return cst(0,w); if(lo+w<=iw) return Extract(a->k[0],lo,w); return ZExt(Extract(a->k[0],lo,iw-lo),w); }
      case oSExt:{ unsigned iw=a->k[0]->w; if(lo+w<=iw) return Extract(a->k[0],lo,w); if(lo<iw) return SExt(Extract(a->k[0],lo,iw-lo),w); return SExt(Extract(a->k[0],iw-1,1),w); }
      case oConcat:{ unsigned lw=a->k[1]->w; if(lo>=lw) return Extract(a->k[0],lo-lw,w); if(lo+w<=lw) return Extract(a->k[1],lo,w);
        return Concat(Extract(a->k[0],0,lo+w-lw),Extract(a->k[1],lo,lw-lo)); }
      case oAnd: case oOr: case oXor: return Bin(a->op,Extract(a->k[0],lo,w),Extract(a->k[1],lo,w));
      case oAdd: case oSub: case oMul: if(lo==0) return Bin(a->op,Extract(a->k[0],0,w),Extract(a->k[1],0,w));
        if(a->op==oAdd&&(low0(a->k[0])>=lo||low0(a->k[1])>=lo)) return Bin(oAdd,Extract(a->k[0],lo,w),Extract(a->k[1],lo,w));
        if(a->op==oSub&&low0(a->k[1])>=lo) return Bin(oSub,Extract(a->k[0],lo,w),Extract(a->k[1],lo,w)); break;
      case oIte: return Ite(a->k[0],Extract(a->k[1],lo,w),Extract(a->k[2],lo,w));
      default: break; }
    return intern(oExtract,w,{a},0,lo); }
  Node* And(Node*a,Node*b){ return Bin(oAnd,a,b); }
  Node* Or(Node*a,Node*b){ return Bin(oOr,a,b); }
  // decomposition into (low..high) parts for disjoint-or recognition
  bool parts(Node*n,std::vector<std::pair<Node*,unsigned>>& out){ // node==nullptr: zeros
    if(isC(n)){ if(n->c==0) out.push_back({nullptr,n->w}); else { unsigned tz=0; while(!((n->c>>tz)&1)) tz++; unsigned hb=n->w; while(!((n->c>>(hb-1))&1)) hb--;
        if(tz) out.push_back({nullptr,tz}); out.push_back({cst(n->c>>tz,hb-tz),hb-tz}); if(hb<n->w) out.push_back({nullptr,n->w-hb}); } return true; }
    if(n->op==oZExt){ if(!parts(n->k[0],out)) return false; out.push_back({nullptr,n->w-n->k[0]->w}); return true; }
    if(n->op==oConcat){ return parts(n->k[1],out)&&parts(n->k[0],out); }
    out.push_back({n,n->w}); return true; }
  Node* disjointOr(Node*a,Node*b){
    std::vector<std::pair<Node*,unsigned>> pa,pb; parts(a,pa); parts(b,pb);
    if(pa.size()==1&&pb.size()==1) return nullptr;
    std::vector<Node*> res; size_t i=0,j=0; unsigned oi=0,oj=0;
    while(i<pa.size()&&j<pb.size()){
      unsigned wi=pa[i].second-oi, wj=pb[j].second-oj, w=wi<wj?wi:wj; Node*x=pa[i].first,*y=pb[j].first;
      if(x&&y) return nullptr;
      res.push_back(x?Extract(x,oi,w): y?Extract(y,oj,w): cst(0,w));
      oi+=w;oj+=w; if(oi==pa[i].second){i++;oi=0;} if(oj==pb[j].second){j++;oj=0;} }
    Node* r=res[0]; for(size_t k=1;k<res.size();k++) r=Concat(res[k],r); return r; }

  static bool structured(Node*n){ return n->op==oConcat||n->op==oZExt; }
  Node* bitwise(Op op,Node*a,Node*b){ // piecewise bit operation; at least one operand structured
    std::vector<std::pair<Node*,unsigned>> pa,pb; parts(a,pa); parts(b,pb);
    size_t i=0,j=0; unsigned oi=0,oj=0; Node*r=nullptr; std::vector<Node*> res;
    while(i<pa.size()&&j<pb.size()){
      unsigned wi=pa[i].second-oi, wj=pb[j].second-oj, w=wi<wj?wi:wj; Node*x=pa[i].first?Extract(pa[i].first,oi,w):cst(0,w),*y=pb[j].first?Extract(pb[j].first,oj,w):cst(0,w);
      if(w<a->w) res.push_back(Bin(op,x,y)); else return nullptr;
      oi+=w;oj+=w; if(oi==pa[i].second){i++;oi=0;} if(oj==pb[j].second){j++;oj=0;} }
    r=res[0]; for(size_t k=1;k<res.size();k++) r=Concat(res[k],r); return r; }
  Node* Bin(Op op,Node*a,Node*b){
    unsigned w=a->w;
    if(isC(a)&&isC(b)) return cst(cbin(op,w,a->c,b->c), (op>=oEq&&op<=oSle)?1:w);
    switch(op){
      case oAdd: if(isC(a)) std::swap(a,b); if(isC(b,0)) return a;
        if(isC(b)&&a->op==oAdd&&isC(a->k[1])) return Bin(oAdd,a->k[0],cst(a->k[1]->c+b->c,w));
        if(w==1) return Bin(oXor,a,b);
        if(a->op==oSub&&a->k[1]==b) return a->k[0]; if(b->op==oSub&&b->k[1]==a) return b->k[0];
        if(!isC(b)&&a->id>b->id) std::swap(a,b); break;
      case oSub: if(a==b) return cst(0,w); if(isC(b)) return Bin(oAdd,a,cst(0-b->c,w)); if(w==1) return Bin(oXor,a,b);
        if(a->op==oAdd&&a->k[0]==b) return a->k[1]; if(a->op==oAdd&&a->k[1]==b) return a->k[0]; break;
      case oMul: if(isC(a)) std::swap(a,b); if(isC(b,0)) return b; if(isC(b,1)) return a; if(isC(b,maskw(w))) return Bin(oSub,cst(0,w),a);
        if(isC(b)&&!(b->c&1)){ unsigned t=low0(b); return Concat(Bin(oMul,Extract(a,0,w-t),cst((u128)(sext(b->c,w)>>t),w-t)),cst(0,t)); }
        if(!isC(b)&&a->id>b->id) std::swap(a,b); break;
      case oUDiv: if(isC(b,1)) return a; break;
      case oSDiv: if(isC(b,1)) return a; break;
      case oAnd: if(isC(a)) std::swap(a,b); if(isC(b,0)) return b; if(isC(b,maskw(w))) return a; if(a==b) return a;
        if(w==1){ if(a->op==oNot&&a->k[0]==b) return F; if(b->op==oNot&&b->k[0]==a) return F; if(a->id>b->id) std::swap(a,b); break; }
        if(structured(a)||structured(b)) if(Node*r=bitwise(oAnd,a,b)) return r;
        if(isC(b)){ u128 m=b->c; // contiguous masks
          unsigned tz=0; while(!((m>>tz)&1)) tz++; u128 s=m>>tz; if((s&(s+1))==0){ unsigned n=0; while(s){n++;s>>=1;}
            Node* mid=Extract(a,tz,n); if(tz) mid=Concat(mid,cst(0,tz)); return ZExt(mid,w); } }
        if(!isC(b)&&a->id>b->id) std::swap(a,b); break;
      case oOr: if(isC(a)) std::swap(a,b); if(isC(b,0)) return a; if(isC(b,maskw(w))) return b; if(a==b) return a;
        if(w==1){ if(a->op==oNot&&a->k[0]==b) return T; if(b->op==oNot&&b->k[0]==a) return T; if(a->id>b->id) std::swap(a,b); break; }
        if(Node* r=disjointOr(a,b)) return r;
        if(structured(a)||structured(b)) if(Node*r=bitwise(oOr,a,b)) return r;
        if(!isC(b)&&a->id>b->id) std::swap(a,b); break;
      case oXor: if(isC(a)) std::swap(a,b); if(isC(b,0)) return a; if(a==b) return cst(0,w);
        if(w==1){ if(isC(b,1)) return Not(a); if(a->op==oNot) return Not(Bin(oXor,a->k[0],b)); if(b->op==oNot) return Not(Bin(oXor,a,b->k[0])); return Not(Bin(oEq,a,b)); }
        if(structured(a)||structured(b)) if(Node*r=bitwise(oXor,a,b)) return r;
        if(!isC(b)&&a->id>b->id) std::swap(a,b); break;
      case oShl: if(isC(b)){ if(b->c>=w) return cst(0,w); unsigned s=b->c; if(!s) return a; return Concat(Extract(a,0,w-s),cst(0,s)); } break;
      case oLShr: if(isC(b)){ if(b->c>=w) return cst(0,w); unsigned s=b->c; if(!s) return a; return ZExt(Extract(a,s,w-s),w); } break;
      case oAShr: if(isC(b)){ unsigned s=b->c>=w?w-1:(unsigned)b->c; if(!s) return a; return SExt(Extract(a,s,w-s),w); } break;
      case oEq: if(a==b) return T; if(isC(a)) std::swap(a,b);
        if(w==1){ if(isC(b)) return b->c?a:Not(a); if(a->op==oNot&&b->op==oNot) return Bin(oEq,a->k[0],b->k[0]); if(a->op==oNot) return Not(Bin(oEq,a->k[0],b)); if(b->op==oNot) return Not(Bin(oEq,a,b->k[0]));
          if(a->id>b->id) std::swap(a,b); break; }
        if(isC(b)){
          if(a->op==oZExt){ unsigned iw=a->k[0]->w; if(b->c>>iw) return F; return Bin(oEq,a->k[0],cst(b->c,iw)); }
          if(a->op==oSExt){ unsigned iw=a->k[0]->w; u128 t=b->c&maskw(iw); if(((u128)sext(t,iw)&maskw(w))!=b->c) return F; return Bin(oEq,a->k[0],cst(t,iw)); }
          if(a->op==oAdd&&isC(a->k[1])) return Bin(oEq,a->k[0],cst(b->c-a->k[1]->c,w));
          if(a->op==oSub&&isC(b,0)) return Bin(oEq,a->k[0],a->k[1]);
          if(a->op==oOr&&isC(b,0)) return And(Bin(oEq,a->k[0],b),Bin(oEq,a->k[1],b));
          if(a->op==oXor&&isC(b,0)) return Bin(oEq,a->k[0],a->k[1]);
          if(a->op==oXor&&isC(a->k[1])) return Bin(oEq,a->k[0],cst(a->k[1]->c^b->c,w));
          if(a->op==oIte&&isC(a->k[1])&&isC(a->k[2])){ bool x=a->k[1]==b,y=a->k[2]==b; if(x&&y) return T; if(x) return a->k[0]; if(y) return Not(a->k[0]); return F; }
          if(a->op==oIte&&(isC(a->k[1])||isC(a->k[2]))) return Ite(a->k[0],Bin(oEq,a->k[1],b),Bin(oEq,a->k[2],b));
          if(a->op==oConcat){ Node*h=a->k[0],*l=a->k[1]; return And(Bin(oEq,h,cst(b->c>>l->w,h->w)),Bin(oEq,l,cst(b->c,l->w))); } }
        else { if(a->op==oZExt&&b->op==oZExt&&a->k[0]->w==b->k[0]->w) return Bin(oEq,a->k[0],b->k[0]);
          if(a->op==oSExt&&b->op==oSExt&&a->k[0]->w==b->k[0]->w) return Bin(oEq,a->k[0],b->k[0]);
          if(a->op==oAdd&&b->op==oAdd&&isC(a->k[1])&&isC(b->k[1])){ if(a->k[0]==b->k[0]) return boolc(a->k[1]->c==b->k[1]->c); if(a->k[1]==b->k[1]) return Bin(oEq,a->k[0],b->k[0]); }
          if(a->op==oConcat&&b->op==oConcat&&a->k[1]->w==b->k[1]->w) return And(Bin(oEq,a->k[0],b->k[0]),Bin(oEq,a->k[1],b->k[1]));
          if(a->id>b->id) std::swap(a,b); }
        break;
      case oUle: return Not(Bin(oUlt,b,a));
      case oSle: return Not(Bin(oSlt,b,a));
      case oUlt: if(a==b) return F; if(isC(b,0)) return F; if(isC(a,maskw(w))) return F;
        if(w==1) return And(Not(a),b);
        if(isC(b,1)) return Bin(oEq,a,cst(0,w)); if(isC(a,0)) return Not(Bin(oEq,b,cst(0,w)));
        if(a->op==oConcat&&isC(b)){ unsigned lw=a->k[1]->w; u128 ch=b->c>>lw, cl=b->c&maskw(lw); Node*h=a->k[0]; if(cl==0) return Bin(oUlt,h,cst(ch,h->w)); return Or(Bin(oUlt,h,cst(ch,h->w)),And(Bin(oEq,h,cst(ch,h->w)),Bin(oUlt,a->k[1],cst(cl,lw)))); }
        if(b->op==oConcat&&isC(a)){ unsigned lw=b->k[1]->w; u128 ch=a->c>>lw, cl=a->c&maskw(lw); Node*h=b->k[0]; if(cl==maskw(lw)) return Bin(oUlt,cst(ch,h->w),h); return Or(Bin(oUlt,cst(ch,h->w),h),And(Bin(oEq,h,cst(ch,h->w)),Bin(oUlt,cst(cl,lw),b->k[1]))); }
        if(a->op==oZExt&&b->op==oZExt&&a->k[0]->w==b->k[0]->w) return Bin(oUlt,a->k[0],b->k[0]);
        if(a->op==oZExt&&isC(b)){ unsigned iw=a->k[0]->w; if(b->c>>iw) return T; return Bin(oUlt,a->k[0],cst(b->c,iw)); }
        if(b->op==oZExt&&isC(a)){ unsigned iw=b->k[0]->w; if(a->c>>iw) return F; return Bin(oUlt,cst(a->c,iw),b->k[0]); }
        if(a->op==oSExt&&b->op==oSExt&&a->k[0]->w==b->k[0]->w) return Bin(oUlt,a->k[0],b->k[0]);
        break;
      case oSlt: if(a==b) return F; if(w==1) return And(a,Not(b));
        if(isC(b,(u128)1<<(w-1))) return F; if(isC(a,maskw(w)>>1)) return F;
        if(a->op==oSExt&&b->op==oSExt&&a->k[0]->w==b->k[0]->w) return Bin(oSlt,a->k[0],b->k[0]);
        if(a->op==oZExt&&b->op==oZExt&&a->k[0]->w==b->k[0]->w) return Bin(oUlt,a->k[0],b->k[0]);
        if(a->op==oZExt&&isC(b)) return ((b->c>>(w-1))&1)? F : Bin(oUlt,a,b);
        if(b->op==oZExt&&isC(a)) return ((a->c>>(w-1))&1)? T : Bin(oUlt,a,b);
        if(a->op==oSExt&&isC(b)){ unsigned iw=a->k[0]->w; s128 v=sext(b->c,w), mx=(s128)(maskw(iw)>>1), mn=-mx-1; if(v>mx) return T; if(v<=mn) return F; return Bin(oSlt,a->k[0],cst((u128)v,iw)); }
        if(b->op==oSExt&&isC(a)){ unsigned iw=b->k[0]->w; s128 v=sext(a->c,w), mx=(s128)(maskw(iw)>>1), mn=-mx-1; if(v>=mx) return F; if(v<mn) return T; return Bin(oSlt,cst((u128)v,iw),b->k[0]); }
        break;
      default: break; }
    return intern(op,(op>=oEq&&op<=oSle)?1:w,{a,b}); }
  Node* FBin(Op op,Node*a,Node*b){ bool cmp=op>=oFEq&&op<=oFUno; if(isC(a)&&isC(b)) return cst(cfp(op,a->w,a->c,b->c),cmp?1:a->w);
    if(op==oFUno){ if(isC(a)&&cfp(oFUno,a->w,a->c,a->c)) return T; if(isC(b)&&cfp(oFUno,b->w,b->c,b->c)) return T; if(isC(a)) a=b; else if(isC(b)) b=a; }
    if((op==oFEq||op==oFUno)&&a->id>b->id) std::swap(a,b);
    return intern(op,cmp?1:a->w,{a,b}); }
  Node* Cast(Op op,Node*a,unsigned w){ if(isC(a)) return cst(ccast(op,w,a->w,a->c),w); return intern(op,w,{a}); }

  // ---- evaluation
  uint64_t epoch=1; std::vector<u128> model; // by var index
  void setModel(std::vector<u128> m){ model=std::move(m); epoch++; }
  u128 eval(Node*n){
    if(n->op==oConst) return n->c; if(n->ep==epoch) return n->ev; u128 r;
    switch(n->op){
      case oVar: r= n->lo<model.size()? model[n->lo]&maskw(n->w):0; break;
      case oNot: r=!eval(n->k[0]); break;
      case oIte: r=eval(n->k[0])?eval(n->k[1]):eval(n->k[2]); break;
      case oConcat: r=eval(n->k[0])<<n->k[1]->w|eval(n->k[1]); break;
      case oExtract: r=(eval(n->k[0])>>n->lo)&maskw(n->w); break;
      case oZExt: r=eval(n->k[0]); break;
      case oSExt: r=(u128)sext(eval(n->k[0]),n->k[0]->w)&maskw(n->w); break;
      case oFEq:case oFLt:case oFLe:case oFUno:case oFAdd:case oFSub:case oFMul:case oFDiv: r=cfp(n->op,n->k[0]->w,eval(n->k[0]),eval(n->k[1])); break;
      case oSIToFP:case oUIToFP:case oFPToSI:case oFPToUI:case oFPExt:case oFPTrunc:case oFNeg: r=ccast(n->op,n->w,n->k[0]->w,eval(n->k[0])); break;
      default: r=cbin(n->op,n->k[0]->w,eval(n->k[0]),eval(n->k[1])); }
    n->ep=epoch; n->ev=r; return r; }

  // ---- Z3
  Z3_context z=nullptr; Z3_sort boolS=nullptr; Z3_ast rne=nullptr;
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(z,a); return a; }
  Z3_ast num(u128 v,unsigned w){ Z3_sort s=Z3_mk_bv_sort(z,w); if(!(v>>64)) return Z3_mk_unsigned_int64(z,(uint64_t)v,s);
    Z3_ast h=Z3_mk_unsigned_int64(z,(uint64_t)(v>>64),Z3_mk_bv_sort(z,w-64)); Z3_ast l=Z3_mk_unsigned_int64(z,(uint64_t)v,Z3_mk_bv_sort(z,64)); return Z3_mk_concat(z,h,l); }
  Z3_ast asBV(Node*n){ Z3_ast a=toZ3(n); if(n->w==1) return Z3_mk_ite(z,a,num(1,1),num(0,1)); return a; }
  Z3_ast fromBV1(Z3_ast a){ return Z3_mk_eq(z,a,num(1,1)); }
  Z3_sort fps(unsigned w){ return w==64?Z3_mk_fpa_sort_64(z):Z3_mk_fpa_sort_32(z); }
  Z3_ast fp(Node*n){ return Z3_mk_fpa_to_fp_bv(z,asBV(n),fps(n->w)); }
  Z3_ast unfp(Z3_ast f){ return Z3_mk_fpa_to_ieee_bv(z,f); }
  Z3_ast toZ3(Node*n){
    if(n->z) return n->z; Z3_ast r=nullptr; auto K=[&](int i){return n->k[i];};
    switch(n->op){
      case oConst: r= n->w==1? (n->c?Z3_mk_true(z):Z3_mk_false(z)) : num(n->c,n->w); break;
      case oVar:{ Z3_symbol s=Z3_mk_string_symbol(z,(varName[n->lo]+"!"+std::to_string(n->lo)).c_str()); r=Z3_mk_const(z,s,n->w==1?Z3_mk_bool_sort(z):Z3_mk_bv_sort(z,n->w)); break; }
      case oNot: r=Z3_mk_not(z,toZ3(K(0))); break;
      case oAnd: case oOr: if(n->w==1){ Z3_ast a[2]={toZ3(K(0)),toZ3(K(1))}; r= n->op==oAnd?Z3_mk_and(z,2,a):Z3_mk_or(z,2,a); } else r= n->op==oAnd?Z3_mk_bvand(z,toZ3(K(0)),toZ3(K(1))):Z3_mk_bvor(z,toZ3(K(0)),toZ3(K(1))); break;
      case oXor: r= n->w==1?Z3_mk_xor(z,toZ3(K(0)),toZ3(K(1))):Z3_mk_bvxor(z,toZ3(K(0)),toZ3(K(1))); break;
      case oEq: r= Z3_mk_eq(z,toZ3(K(0)),toZ3(K(1))); break;
      case oIte: r=Z3_mk_ite(z,toZ3(K(0)),toZ3(K(1)),toZ3(K(2))); break;
      case oUlt: r=Z3_mk_bvult(z,asBV(K(0)),asBV(K(1))); break;
      case oSlt: r=Z3_mk_bvslt(z,asBV(K(0)),asBV(K(1))); break;
      case oConcat: r=Z3_mk_concat(z,asBV(K(0)),asBV(K(1))); break;
      case oExtract: r=Z3_mk_extract(z,n->lo+n->w-1,n->lo,asBV(K(0))); if(n->w==1) r=fromBV1(r); break;
      case oZExt: r=Z3_mk_zero_ext(z,n->w-K(0)->w,asBV(K(0))); break;
      case oSExt: r=Z3_mk_sign_ext(z,n->w-K(0)->w,asBV(K(0))); break;
      case oFEq: r=Z3_mk_fpa_eq(z,fp(K(0)),fp(K(1))); break;
      case oFLt: r=Z3_mk_fpa_lt(z,fp(K(0)),fp(K(1))); break;
      case oFLe: r=Z3_mk_fpa_leq(z,fp(K(0)),fp(K(1))); break;
      case oFUno:{ Z3_ast a[2]={Z3_mk_fpa_is_nan(z,fp(K(0))),Z3_mk_fpa_is_nan(z,fp(K(1)))}; r=Z3_mk_or(z,2,a); break; }
      case oFAdd: r=unfp(Z3_mk_fpa_add(z,rne,fp(K(0)),fp(K(1)))); break;
      case oFSub: r=unfp(Z3_mk_fpa_sub(z,rne,fp(K(0)),fp(K(1)))); break;
      case oFMul: r=unfp(Z3_mk_fpa_mul(z,rne,fp(K(0)),fp(K(1)))); break;
      case oFDiv: r=unfp(Z3_mk_fpa_div(z,rne,fp(K(0)),fp(K(1)))); break;
      case oFNeg: r=Z3_mk_bvxor(z,asBV(K(0)),num((u128)1<<(n->w-1),n->w)); break;
      case oSIToFP: r=unfp(Z3_mk_fpa_to_fp_signed(z,rne,asBV(K(0)),fps(n->w))); break;
      case oUIToFP: r=unfp(Z3_mk_fpa_to_fp_unsigned(z,rne,asBV(K(0)),fps(n->w))); break;
      case oFPToSI: r=Z3_mk_fpa_to_sbv(z,Z3_mk_fpa_round_toward_zero(z),fp(K(0)),n->w); break;
      case oFPToUI: r=Z3_mk_fpa_to_ubv(z,Z3_mk_fpa_round_toward_zero(z),fp(K(0)),n->w); break;
      case oFPExt: case oFPTrunc: r=unfp(Z3_mk_fpa_to_fp_float(z,rne,fp(K(0)),fps(n->w))); break;
      default:{ Z3_ast a=asBV(K(0)),b=asBV(K(1)); switch(n->op){
        case oAdd:r=Z3_mk_bvadd(z,a,b);break; case oSub:r=Z3_mk_bvsub(z,a,b);break; case oMul:r=Z3_mk_bvmul(z,a,b);break;
        case oUDiv:r=Z3_mk_bvudiv(z,a,b);break; case oSDiv:r=Z3_mk_bvsdiv(z,a,b);break; case oURem:r=Z3_mk_bvurem(z,a,b);break; case oSRem:r=Z3_mk_bvsrem(z,a,b);break;
        case oShl:r=Z3_mk_bvshl(z,a,b);break; case oLShr:r=Z3_mk_bvlshr(z,a,b);break; case oAShr:r=Z3_mk_bvashr(z,a,b);break;
        default: throw EngineErr("toZ3 op"); } } }
    n->z=keep(r); return r; }

  // ---- integer-arithmetic translation (exact: wrap-around is encoded where the static ranges admit it)
  Z3_sort intS=nullptr; std::unordered_map<std::string,Z3_ast> icache;
  Z3_ast inum(s128 v){ bool neg=v<0; u128 u=neg?(u128)0-(u128)v:(u128)v; std::string t; if(!u) t="0"; while(u){ t.insert(t.begin(),'0'+(int)(u%10)); u/=10; } if(neg) t="-"+t; auto it=icache.find(t); if(it!=icache.end()) return it->second; Z3_ast a=keep(Z3_mk_numeral(z,t.c_str(),intS)); icache[t]=a; return a; }
  static s128 key(u128 bits){ uint64_t b=(uint64_t)bits; s128 m=(s128)(b&0x7fffffffffffffffull); return (b>>63)? -m : m; }
  static u128 unkey(s128 k){ return k<0? ((u128)(uint64_t)(-k)|((u128)1<<63)) : (u128)k; }
  static constexpr s128 FPMAX=(s128)0x7ff0000000000000ll;
  Z3_ast zadd(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_add(z,2,x); }
  Z3_ast zsub(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_sub(z,2,x); }
  Z3_ast zmul(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_mul(z,2,x); }
  // unsigned view
  bool uview(Node*n,Z3_ast&a,s128&lo,s128&hi){ if(n->w==1){ if(!lia(n)) return false; a=Z3_mk_ite(z,n->zi,inum(1),inum(0)); lo=0;hi=1; if(isC(n)) { lo=hi=(s128)n->c; a=inum(lo);} return true; }
    if(!lia(n)) return false; if(n->rl>=0){ a=n->zi; lo=n->rl; hi=n->rh; return true; } if(n->w>100) return false; s128 M=(s128)1<<n->w; if(n->rh<0){ a=zadd(n->zi,inum(M)); lo=n->rl+M; hi=n->rh+M; return true; }
    a=Z3_mk_ite(z,Z3_mk_lt(z,n->zi,inum(0)),zadd(n->zi,inum(M)),n->zi); lo=0; hi=M-1; return true; }
  bool sview(Node*n,Z3_ast&a,s128&lo,s128&hi){ if(n->w==1){ if(!lia(n)) return false; a=Z3_mk_ite(z,n->zi,inum(-1),inum(0)); lo=-1;hi=0; return true; } if(!lia(n)) return false; a=n->zi; lo=n->rl; hi=n->rh; return true; }
  // wrap an exact integer (range [lo,hi]) into signed w bits
  bool wrap(unsigned w,Z3_ast&a,s128&lo,s128&hi){ if(w>100){ return lo>-((s128)1<<120)&&hi<((s128)1<<120); } s128 H=(s128)1<<(w-1), M=H*2; if(lo>=-H&&hi<H) return true; if(lo<-3*H||hi>=3*H) return false;
    Z3_ast r=a; keep(a); if(hi>=H) r=Z3_mk_ite(z,Z3_mk_ge(z,a,inum(H)),zsub(a,inum(M)),r); if(lo<-H) r=Z3_mk_ite(z,Z3_mk_lt(z,a,inum(-H)),zadd(a,inum(M)),r); a=r; lo=-H; hi=H-1; return true; }
  bool fpkey(Node*n,Z3_ast&a){ if(n->w!=64) return false; if(isC(n)){ double d=bd(n->c); if(d!=d) return false; a=inum(key(n->c)); return true; } if(n->op==oVar&&vinfo[n->lo].fp) { if(!lia(n)) return false; a=n->zi; return true; }
    if(n->op==oIte){ Z3_ast x,y; if(!lia(n->k[0])||!fpkey(n->k[1],x)) return false; keep(x); if(!fpkey(n->k[2],y)) return false; a=keep(Z3_mk_ite(z,n->k[0]->zi,x,y)); return true; }
    if(n->op==oFNeg){ Z3_ast x; if(!fpkey(n->k[0],x)) return false; a=keep(Z3_mk_unary_minus(z,x)); return true; } return false; }
  bool lia(Node*n){ if(n->li) return n->li>0; n->li= lia1(n)?1:-1; return n->li>0; }
  bool fin(Node*n,Z3_ast a,s128 lo,s128 hi){ keep(a); if(!wrap(n->w,a,lo,hi)) return false; n->zi=keep(a); n->rl=lo; n->rh=hi; return true; }
  bool finb(Node*n,Z3_ast a){ n->zi=keep(a); n->rl=0; n->rh=1; return true; }
  bool lia1(Node*n){
    if(!intS){ intS=Z3_mk_int_sort(z); Z3_inc_ref(z,Z3_sort_to_ast(z,intS)); }
    auto K=[&](int i){return n->k[i];}; Z3_ast a,b; s128 al,ah,bl,bh;
    switch(n->op){
      case oConst: if(n->w==1) return finb(n,n->c?Z3_mk_true(z):Z3_mk_false(z)); { s128 v=sext(n->c,n->w); if(n->w>100&&(v>((s128)1<<120)||v<-((s128)1<<120))) return false; return fin(n,inum(v),v,v); }
      case oVar: { VarInfo&vi=vinfo[n->lo]; Z3_symbol s=Z3_mk_string_symbol(z,(varName[n->lo]+"!i"+std::to_string(n->lo)).c_str());
        if(n->w==1) return finb(n,Z3_mk_const(z,s,Z3_mk_bool_sort(z))); if(n->w>64) return false; a=Z3_mk_const(z,s,intS);
        if(vi.fp){ n->zi=keep(a); n->rl=-FPMAX; n->rh=FPMAX; return true; }
        if(vi.ranged) return fin(n,a,vi.lo,vi.hi); s128 H=(s128)1<<(n->w-1); return fin(n,a,-H,H-1); }
      case oNot: if(!lia(K(0))) return false; return finb(n,Z3_mk_not(z,K(0)->zi));
      case oXor: if(n->w==1) return false; // fallthrough: bitwise on narrow values, bit by bit
        if(isC(K(1),maskw(n->w))){ if(isFP(K(0))||!sview(K(0),a,al,ah)) return false; return fin(n,zsub(inum(-1),a),-1-ah,-1-al); }
      case oAnd: case oOr: if(n->w!=1){ unsigned nb=n->w; if(isFP(K(0))||isFP(K(1))) return false; if(nb>8){ bool l0=lia(K(0)),l1=lia(K(1)); bool s0=l0&&K(0)->rl>=0&&K(0)->rh<=255, s1=l1&&K(1)->rl>=0&&K(1)->rh<=255; s128 mx;
            if(n->op==oAnd){ if(!s0&&!s1) return false; mx= s0&&s1? (K(0)->rh<K(1)->rh?K(0)->rh:K(1)->rh) : s0?K(0)->rh:K(1)->rh; } else { if(!s0||!s1) return false; mx=K(0)->rh>K(1)->rh?K(0)->rh:K(1)->rh; }
            nb=1; while(((s128)1<<nb)<=mx) nb++; }
          Z3_ast sum=inum(0); for(unsigned i=0;i<nb;i++){ Node*x=Extract(K(0),i,1),*y=Extract(K(1),i,1); Node*e=Bin(n->op,x,y); if(!lia(e)) return false; s128 wgt=(s128)1<<i; if(i+1==n->w) wgt=-wgt; if(isC(e)){ if(e->c) sum=keep(zadd(sum,inum(wgt))); } else sum=keep(zadd(sum,Z3_mk_ite(z,e->zi,inum(wgt),inum(0)))); }
          return fin(n,sum, nb==n->w? -((s128)1<<(nb-1)):0, nb==n->w? ((s128)1<<(nb-1))-1:((s128)1<<nb)-1); } { if(!lia(K(0))||!lia(K(1))) return false; Z3_ast x[2]={K(0)->zi,K(1)->zi}; return finb(n,n->op==oAnd?Z3_mk_and(z,2,x):Z3_mk_or(z,2,x)); }
      case oEq: if(K(0)->w==1){ if(!lia(K(0))||!lia(K(1))) return false; return finb(n,Z3_mk_iff(z,K(0)->zi,K(1)->zi)); }
        if(isFP(K(0))||isFP(K(1))){ for(int i=0;i<2;i++) if(isC(K(i))&&(K(i)->c>>63)&&!(K(i)->c<<65)) return false; if(!fpkey(K(0),a)) return false; keep(a); if(!fpkey(K(1),b)) return false; return finb(n,Z3_mk_eq(z,a,b)); } // no NaN, no -0.0: bit equality is value equality
        if(!lia(K(0))||!lia(K(1))) return false; return finb(n,Z3_mk_eq(z,K(0)->zi,K(1)->zi));
      case oSlt: if(isFP(K(0))||isFP(K(1))) return false; if(!sview(K(0),a,al,ah)) return false; keep(a); if(!sview(K(1),b,bl,bh)) return false; return finb(n,Z3_mk_lt(z,a,b));
      case oUlt: if(isFP(K(0))||isFP(K(1))) return false; if(!uview(K(0),a,al,ah)) return false; keep(a); if(!uview(K(1),b,bl,bh)) return false; return finb(n,Z3_mk_lt(z,a,b));
      case oIte: if(!lia(K(0))) return false; if(n->w==1){ if(!lia(K(1))||!lia(K(2))) return false; return finb(n,Z3_mk_ite(z,K(0)->zi,K(1)->zi,K(2)->zi)); }
        if(isFP(K(1))||isFP(K(2))) return false; if(!sview(K(1),a,al,ah)) return false; keep(a); if(!sview(K(2),b,bl,bh)) return false; return fin(n,Z3_mk_ite(z,K(0)->zi,a,b),al<bl?al:bl,ah>bh?ah:bh);
      case oAdd: case oSub: if(isFP(K(0))||isFP(K(1))) return false; if(!sview(K(0),a,al,ah)) return false; keep(a); if(!sview(K(1),b,bl,bh)) return false; if(n->op==oAdd) return fin(n,zadd(a,b),al+bl,ah+bh); return fin(n,zsub(a,b),al-bh,ah-bl);
      case oMul: if(!isC(K(1))||n->w>64) return false; { if(!sview(K(0),a,al,ah)) return false; s128 c=sext(K(1)->c,n->w); if(c>((s128)1<<40)||c<-((s128)1<<40)) return false; s128 x=al*c,y=ah*c; return fin(n,zmul(a,inum(c)),x<y?x:y,x<y?y:x); }
      case oSExt: if(isFP(K(0))) return false; if(!sview(K(0),a,al,ah)) return false; return fin(n,a,al,ah);
      case oZExt: if(isFP(K(0))) return false; if(!uview(K(0),a,al,ah)) return false; return fin(n,a,al,ah);
      case oConcat: { if(n->w>64||isFP(K(0))||isFP(K(1))) return false; if(!sview(K(0),a,al,ah)) return false; keep(a); if(!uview(K(1),b,bl,bh)) return false; s128 m=(s128)1<<K(1)->w; return fin(n,zadd(zmul(a,inum(m)),b),al*m+bl,ah*m+bh); }
      case oExtract: { if(isFP(K(0))) return false; if(n->lo==0&&n->w>1){ if(!lia(K(0))) return false; a=K(0)->zi; al=K(0)->rl; ah=K(0)->rh; return fin(n,a,al,ah); }
        if(n->w==1&&n->lo==(uint32_t)K(0)->w-1){ if(!lia(K(0))) return false; return finb(n,Z3_mk_lt(z,K(0)->zi,inum(0))); }
        if(!lia(K(0))) return false; if(K(0)->rl>=0&&K(0)->rh<16){ // small: enumerate
          Z3_ast r=nullptr; for(int v=(int)K(0)->rl;v<=(int)K(0)->rh;v++){ unsigned e=((unsigned)v>>n->lo)&(unsigned)maskw(n->w>16?16:n->w); if(n->w==1){ Z3_ast eqv=Z3_mk_eq(z,K(0)->zi,inum(v)); Z3_ast val=e?Z3_mk_true(z):Z3_mk_false(z); r=r?Z3_mk_ite(z,eqv,val,r):val; } else { Z3_ast val=inum(sext(e,n->w)); r=r?Z3_mk_ite(z,Z3_mk_eq(z,K(0)->zi,inum(v)),val,r):val; } keep(r); }
          if(n->w==1) return finb(n,r); s128 H=(s128)1<<(n->w-1); return fin(n,r,-H,H-1); }
        if(n->lo>62||K(0)->w>64) return false; // bits in the middle: floor division, then modulo
        { s128 d=(s128)1<<n->lo; a=keep(Z3_mk_div(z,K(0)->zi,inum(d))); al=K(0)->rl>>n->lo; ah=K(0)->rh>>n->lo;
          if(n->w==1){ Z3_ast m=Z3_mk_mod(z,a,inum(2)); return finb(n,Z3_mk_eq(z,m,inum(1))); }
          s128 H=(s128)1<<(n->w-1); if(al>=-H&&ah<H) return fin(n,a,al,ah); Z3_ast m=keep(Z3_mk_mod(z,a,inum(2*H))); return fin(n,m,0,2*H-1); }
        return false; }
      case oFLt: case oFLe: case oFEq: if(!fpkey(K(0),a)) return false; keep(a); if(!fpkey(K(1),b)) return false; return finb(n, n->op==oFLt?Z3_mk_lt(z,a,b): n->op==oFLe?Z3_mk_le(z,a,b):Z3_mk_eq(z,a,b));
      case oFUno: if(!fpkey(K(0),a)||!fpkey(K(1),b)) return false; return finb(n,Z3_mk_false(z));
      default: return false; } }
  void whyNot(Node*n,int d=0){ static std::set<Node*> seen; if(d==0&&!seen.insert(n).second) return; if(lia(n)) return; for(int i=0;i<n->nk;i++) if(!lia(n->k[i])){ whyNot(n->k[i],d+1); return; }
    fprintf(stderr,"no integer form: %s\n",show(n,4).c_str()); for(auto*m:tab) for(int i=0;i<m->nk;i++) if(m->k[i]==n) fprintf(stderr,"   in: %s\n",show(m,2).c_str()); }
  std::string show(Node*n,int d){ static const char*nm[]={"const","var"}; char b[64]; if(n->op==oConst){ snprintf(b,64,"%lld:%u",(long long)(int64_t)n->c,n->w); return b; } if(n->op==oVar) return varName[n->lo]; snprintf(b,64,"(op%d:%u@%u",(int)n->op,n->w,n->lo); std::string r=b; if(d) for(int i=0;i<n->nk;i++) r+=" "+show(n->k[i],d-1); return r+")"; }
  bool isFP(Node*n){ if(n->op==oVar) return vinfo[n->lo].fp; if(n->op==oIte) return isFP(n->k[1])||isFP(n->k[2]); return n->op==oFNeg||(n->op>=oFAdd&&n->op<=oFDiv); }
  // constraint on the variable's admissible values: integer view / bit-vector view
  Z3_ast boundI(Node*v){ if(v->w==1||!lia(v)) return nullptr; Z3_ast x[2]={Z3_mk_le(z,inum(v->rl),v->zi),Z3_mk_le(z,v->zi,inum(v->rh))}; return Z3_mk_and(z,2,x); }
  Z3_ast boundB(Node*v){ VarInfo&vi=vinfo[v->lo]; if(vi.fp){ Z3_ast f=fp(v); Z3_ast x[2]={Z3_mk_not(z,Z3_mk_fpa_is_nan(z,f)),Z3_mk_not(z,Z3_mk_eq(z,toZ3(v),num((u128)1<<63,64)))}; return Z3_mk_and(z,2,x); }
    if(vi.ranged){ Z3_ast x[2]={Z3_mk_bvsle(z,num((u128)vi.lo&maskw(v->w),v->w),toZ3(v)),Z3_mk_bvsle(z,toZ3(v),num((u128)vi.hi&maskw(v->w),v->w))}; return Z3_mk_and(z,2,x); } return nullptr; }
};
