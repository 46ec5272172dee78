// Interval maps: codomain kits, symbolic pre-states, pointwise expectations
#pragma once
#include "setops.hpp"
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>

// ---- a small set type as codomain: subsets of {0,1,2}
struct BS { typedef unsigned char key_type; typedef unsigned char value_type; typedef BS key_object_type; typedef std::less<unsigned char> key_compare; typedef unsigned char* iterator; typedef const unsigned char* const_iterator; typedef unsigned char element_type; typedef std::less<unsigned char> element_compare; typedef std::size_t size_type; typedef std::size_t difference_type; typedef unsigned char& reference; typedef const unsigned char& const_reference;
  unsigned b; BS():b(0){} explicit BS(unsigned x):b(x){} };
inline BS& operator+=(BS& x,const BS& y){ x.b|=y.b; return x; } inline BS& operator-=(BS& x,const BS& y){ x.b&=~y.b; return x; } inline BS& operator&=(BS& x,const BS& y){ x.b&=y.b; return x; } inline BS& operator^=(BS& x,const BS& y){ x.b^=y.b; return x; }
inline bool operator==(const BS& x,const BS& y){ return x.b==y.b; } inline bool operator!=(const BS& x,const BS& y){ return x.b!=y.b; } inline bool operator<(const BS& x,const BS& y){ return x.b<y.b; }
inline int inclusion_compare(const BS& x,const BS& y){ return ((x.b&~y.b)==0?(int)icl::inclusion::subset:0)|((y.b&~x.b)==0?(int)icl::inclusion::superset:0); }
namespace boost{ namespace icl{ template<> struct is_set<BS> { typedef is_set type; static const bool value=true; }; } }
// ---- a combiner that is neither commutative nor idempotent; 0 is neutral on both sides
template<class T> struct App : icl::identity_based_inplace_combine<T> { typedef App type; void operator()(T& o,const T& x)const { o = (o==0)? x : (x==0)? o : (T)(3*o+x); } static void version(T&){} };
namespace boost{ namespace icl{ template<> inline std::string unary_template_to_string<App>::apply(){ return "app"; } } }

inline int sel(bool c,int a,int b){ return c?a:b; } inline BS sel(bool c,BS a,BS b){ BS r; r.b=c?a.b:b.b; return r; } inline unsigned sel(bool c,unsigned a,unsigned b){ return c?a:b; } inline long sel(bool c,long a,long b){ return c?a:b; }
inline bool veq(int a,int b){ return a==b; } inline bool veq(unsigned a,unsigned b){ return a==b; } inline bool veq(BS a,BS b){ return a.b==b.b; } inline bool veq(long a,long b){ return a==b; }
inline uint64_t vob(int a){ return (uint64_t)(uint32_t)a; } inline uint64_t vob(unsigned a){ return a; } inline uint64_t vob(BS a){ return a.b; } inline uint64_t vob(long a){ return (uint64_t)a; }

struct KPlus { typedef int V; template<class T> using Comb=icl::inplace_plus<T>; static constexpr bool setsem=false, hasInv=true; static int id(){return 0;} static int sym(const char* n){ return (int)sx_rng(n,32,-1000,1000); }
  static int comb(int a,int b){return a+b;} static int inv(int a,int b){return a-b;} static int neg(int a){return -a;} static int isec(int a,int b){return a+b;} static int fl(int,int){return 0;} };
struct KApp { typedef int V; template<class T> using Comb=App<T>; static constexpr bool setsem=false, hasInv=true; static int id(){return 0;} static int sym(const char* n){ return (int)sx_rng(n,32,-1000,1000); }
  static int comb(int a,int b){ int r=3*a+b; r=(b==0)?a:r; r=(a==0)?b:r; return r; } static int inv(int a,int b){ return a==b?0:a; } static int neg(int a){return a;} static int isec(int a,int b){return comb(a,b);} static int fl(int,int){return 0;} };
struct KMax { typedef int V; template<class T> using Comb=icl::inplace_max<T>; static constexpr bool setsem=false, hasInv=true; static int id(){return 0;} static int sym(const char* n){ return (int)sx_rng(n,32,0,1000); }
  static int comb(int a,int b){return a<b?b:a;} static int inv(int a,int b){return a>b?b:a;} static int neg(int a){return a;} static int isec(int a,int b){return comb(a,b);} static int fl(int,int){return 0;} };
struct KMaxN : KMax { static int sym(const char* n){ return (int)sx_rng(n,32,-1000,1000); } };  // the identity element 0 is not neutral for max here: enriching maps only
struct KMin { typedef int V; template<class T> using Comb=icl::inplace_min<T>; static constexpr bool setsem=false, hasInv=true; static int id(){return 0;} static int sym(const char* n){ return (int)sx_rng(n,32,-1000,0); }
  static int comb(int a,int b){return a>b?b:a;} static int inv(int a,int b){return a<b?b:a;} static int neg(int a){return a;} static int isec(int a,int b){return comb(a,b);} static int fl(int,int){return 0;} };
struct KSet { typedef BS V; template<class T> using Comb=icl::inplace_plus<T>; static constexpr bool setsem=true, hasInv=false; static BS id(){return BS();} static BS sym(const char* n){ return BS((unsigned)sx_rng(n,32,0,7)); }
  static BS comb(BS a,BS b){return BS(a.b|b.b);} static BS inv(BS a,BS b){return BS(a.b&~b.b);} static BS neg(BS a){return a;} static BS isec(BS a,BS b){return BS(a.b&b.b);} static BS fl(BS a,BS b){return BS(a.b^b.b);} };
struct KBit { typedef unsigned V; template<class T> using Comb=icl::inplace_bit_add<T>; static constexpr bool setsem=false, hasInv=false; static unsigned id(){return 0;} static unsigned sym(const char* n){ return (unsigned)sx_rng(n,32,0,15); }
  static unsigned comb(unsigned a,unsigned b){return a|b;} static unsigned inv(unsigned a,unsigned b){return a&~b;} static unsigned neg(unsigned a){return a;} static unsigned isec(unsigned a,unsigned b){return a|b;} static unsigned fl(unsigned,unsigned){return 0;} };

template<class K,class Tr,class I> struct JM_ { typedef icl::interval_map<typename IT<I>::dom,typename K::V,Tr,std::less,K::template Comb,icl::inter_section,I> type; };
template<class K,class Tr,class I> struct PM_ { typedef icl::split_interval_map<typename IT<I>::dom,typename K::V,Tr,std::less,K::template Comb,icl::inter_section,I> type; };
template<class M> struct MI;   // kit independent description of a map type
template<class K_,class Tr_,class I_,bool Join> struct MT { typedef K_ K; typedef Tr_ Tr; typedef I_ I; static constexpr bool join=Join; typedef typename std::conditional<Join,JM_<K_,Tr_,I_>,PM_<K_,Tr_,I_> >::type::type C; typedef typename K_::V V; typedef typename IT<I_>::P P; typedef typename IT<I_>::R R; typedef typename IT<I_>::S S; typedef typename IT<I_>::D D;
  static constexpr bool absorb=Tr_::absorbs_identities, total=Tr_::is_total;
  typedef icl::interval_set<typename IT<I_>::dom,std::less,I_> JS; typedef icl::split_interval_set<typename IT<I_>::dom,std::less,I_> PS; typedef typename C::segment_type Sg; typedef typename C::element_type El; };
template<class V> struct MV { bool d; V v; };
template<class V> inline bool mveq(MV<V> a,MV<V> b){ return (a.d==b.d)&(!a.d|veq(a.v,b.v)); }

template<class T,int N> struct MSegs { typename T::S s[N?N:1]; typename T::V v[N?N:1]; int n; typedef typename T::P P; typedef typename T::R R;
  R r(int i) const { return IT<typename T::I>::rng(s[i]); }
  MV<typename T::V> at(P p) const { MV<typename T::V> m; m.d=false; m.v=T::K::id(); for(int i=0;i<n;i++){ bool h=has(r(i),p); m.d|=h; m.v=sel(h,v[i],m.v); } return m; }
  MV<typename T::V> atL(P p) const { MV<typename T::V> m; m.d=false; m.v=T::K::id(); for(int i=0;i<n;i++){ bool h=hasL(r(i),p); m.d|=h; m.v=sel(h,v[i],m.v); } return m; }
  bool border(P p) const { bool m=false; for(int i=0;i<n;i++){ m|=eq(r(i).s,p); m|=eq(r(i).e,p);} return m; }
  bool inn(P p) const { bool m=false; for(int i=0;i<n;i++) m|=inner(r(i),p); return m; } };
template<class V> inline V* wideVals(){ static V v[10]; return v; }
template<class T> inline typename T::V wideVal(int i,int call,int k){ static const int w[3][8]={{1,2,1,3,2,1,3,2},{1,1,2,3,3,1,2,2},{3,3,0,0,1,2,0,1}}; int v=w[k][(i+call)%8]; if(T::absorb&&v==0) v=2; 
  if constexpr (std::is_same<typename T::V,BS>::value) return BS((unsigned)(v+call)&7u?(unsigned)(v+call)&7u:1u); else if constexpr (std::is_same<typename T::K,KPlus>::value) return (typename T::V)(call?-v:v); else return (typename T::V)v; }
template<class T,int N> inline void wideM(MSegs<T,N>& g){ typedef typename T::I I; WideList l; typename IT<I>::O base; bool first=!Wide::st().have; int k=(int)sx_choose(first?2:1); if(!T::absorb&&first) k=2*k; wideList<I,N>(l,false,true,base); typename T::V* w=wideVals<typename T::V>(); 
  bool der=l.der; g.n=0; for(int i=0;i<l.n;i++){ typename T::V v= der? w[l.src[i]] : wideVal<T>(i,!first,k); if(T::absorb&&veq(v,T::K::id())) v=wideVal<T>(0,0,0); if(i==l.hit&&der){ v=T::K::sym("changed"); if(T::absorb) sx_assume(!veq(v,T::K::id())); }
    if(T::join&&i&&l.e[i-1]==l.a[i]){ typename T::V p=g.v[g.n-1]; if(i==l.hit&&der) sx_assume(!veq(p,v)); else if(veq(p,v)){ v=wideVal<T>(0,0,0); if(veq(p,v)) v=wideVal<T>(1,0,0); } }
    if(first) w[i]=v; g.s[g.n]=wideSeg<I>(base,l.a[i],l.e[i],g.n); g.v[g.n]=v; g.n++; } }
template<class T,int N> inline void symM(MSegs<T,N>& g,const char* nm,int fixed=-1){ typedef typename T::I I; if(Wide::on()){ wideM<T,N>(g); return; } g.n= fixed>=0?fixed:(int)sx_choose(N+1);
  for(int i=0;i<g.n;i++){ g.s[i]=symNE<I>(nm); g.v[i]=T::K::sym("value"); if(T::absorb) sx_assume(!veq(g.v[i],T::K::id())); if(i){ sx_assume(okGap<I>(g.s[i-1],g.s[i],false)); if(T::join) sx_assume(okGap<I>(g.s[i-1],g.s[i],true)|!veq(g.v[i-1],g.v[i])); } } }
template<class C> struct PeekMap : C { static auto ptr(){ return &PeekMap::_map; } };
template<class T,int N> inline void fillM(typename T::C& c,const MSegs<T,N>& g){
#ifdef FILL_BY_ADD
  for(int i=0;i<g.n;i++) c.insert(typename T::Sg(IT<typename T::I>::mk(g.s[i]),g.v[i]));
#else
  auto& t=c.*PeekMap<typename T::C>::ptr(); for(int i=0;i<g.n;i++) t.insert(t.end(), typename T::C::value_type(IT<typename T::I>::mk(g.s[i]),g.v[i]));
#endif
}
template<class T,class C> inline MV<typename T::V> atM(const C& c,typename T::P p){ MV<typename T::V> m; m.d=false; m.v=T::K::id(); for(typename C::const_iterator i=c.begin();i!=c.end();++i){ bool h=has(rngOf((*i).first),p); m.d|=h; m.v=sel(h,(*i).second,m.v); } return m; }
template<class T,class C> inline bool cutM(const C& c,typename T::P p){ bool b=false,in=false,inL=false; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ auto r=rngOf((*i).first); b|=eq(r.s,p)|eq(r.e,p); in|=has(r,p); inL|=hasL(r,p); } return b&in&inL; }
template<class T,class C> inline void wellM(const C& c){ bool ok=true, joined=true, absorbed=true, first=true; typename T::P prev{}; typename T::V pv=T::K::id();
  for(typename C::const_iterator i=c.begin();i!=c.end();++i){ auto r=rngOf((*i).first); ok&=nonempty(r); if(!first){ ok&=le(prev,r.s); joined&=!(eq(prev,r.s)&veq(pv,(*i).second)); } if(T::absorb) absorbed&=!veq((*i).second,T::K::id()); prev=r.e; pv=(*i).second; first=false; }
  sx_check(ok,"segments are non-empty, ordered and disjoint"); if(T::join) sx_check(joined,"a joining map holds no touching segments of equal value"); if(T::absorb) sx_check(absorbed,"an absorbing map stores no neutral value"); }
template<class T,class C> inline void obsM(const C& c){ uint64_t n=0; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ obsSeg<typename T::I>(IT<typename T::I>::raw((*i).first)); sx_observe(vob((*i).second)); n++; } sx_observe(n); }
template<class T,int N> inline void sameM(const typename T::C& c,const MSegs<T,N>& g,const char* msg){ int k=0; bool ok=true; for(auto i=c.begin();i!=c.end();++i,++k) if(k<g.n){ auto a=rngOf((*i).first), b=g.r(k); ok&=eq(a.s,b.s)&eq(a.e,b.e)&veq((*i).second,g.v[k]); } sx_check(ok&(k==g.n),msg); }

enum MapOp { M_ADD, M_SUB, M_INS, M_SET, M_ERP, M_ERK, M_AND, M_ANDK, M_XOR };
template<class T> inline MV<typename T::V> norm(MV<typename T::V> m){ if(T::absorb) m.d&=!veq(m.v,T::K::id()); return m; }
template<class V> inline MV<V> mv(bool d,V v){ MV<V> m; m.d=d; m.v=v; return m; }
template<class V> inline MV<V> msel(bool c,MV<V> a,MV<V> b){ MV<V> m; m.d=(c&a.d)|(!c&b.d); m.v=sel(c,a.v,b.v); return m; }
// the value at one point after the operation; 'in' and v: the operand at that point
template<class T,MapOp O> inline MV<typename T::V> expectM(MV<typename T::V> m,bool in,typename T::V v){ typedef typename T::K K; typedef typename T::V V; bool nop=T::absorb?veq(v,K::id()):false; MV<V> none=mv<V>(false,K::id()); MV<V> self=mv<V>(true,v);
  if(O==M_ADD||(O==M_AND&&T::total)) return msel(in&!nop, msel(m.d,norm<T>(mv<V>(true,K::comb(m.v,v))),self), m);
  if(O==M_SUB) return msel(in&!nop, msel(m.d,norm<T>(mv<V>(true,K::inv(m.v,v))), (T::total&&K::hasInv)?mv<V>(true,K::neg(v)):none), m);
  if(O==M_INS) return msel(in&!nop&!m.d, self, m);
  if(O==M_SET) return msel(in, norm<T>(self), m);
  if(O==M_ERP) return msel(in&m.d&veq(m.v,v), none, m);
  if(O==M_ERK) return msel(in,none,m);
  if(O==M_AND) return msel(in&m.d, norm<T>(mv<V>(true,K::isec(m.v,v))), none);
  if(O==M_ANDK) return msel(in&m.d, m, none);
  // M_XOR
  if(T::total&&T::absorb) return none;
  if(T::total) return mv<V>(in|m.d,K::id());
  return msel(in, msel(m.d, norm<T>(mv<V>(true,K::setsem?K::fl(v,m.v):K::id())), norm<T>(self)), m); }

// ---- ways to apply an operation with a segment or element operand a (key: interval or key value k)
template<MapOp O,class C,class A> SX_NOINLINE void applyMap(C& c,const A& a,int F){
  if constexpr (O==M_ADD){ switch(F>=0?F:(int)sx_choose(6)){ case 0: c.add(a); break; case 1: c+=a; break; case 2: c|=a; break; case 3: icl::add(c,a); break; case 4: { C d=c+a; c.swap(d); break; } default: { C d=C(c)|a; c.swap(d); break; } } }
  else if constexpr (O==M_SUB){ switch(F>=0?F:(int)sx_choose(4)){ case 0: c.subtract(a); break; case 1: c-=a; break; case 2: icl::subtract(c,a); break; default: { C d=c-a; c.swap(d); break; } } }
  else if constexpr (O==M_INS){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c.insert(a); break; default: icl::insert(c,a); break; } }
  else if constexpr (O==M_SET){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c.set(a); break; default: icl::set_at(c,a); break; } }
  else if constexpr (O==M_ERP){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c.erase(a); break; default: icl::erase(c,a); break; } }
  else if constexpr (O==M_ERK){ switch(F>=0?F:(int)sx_choose(5)){ case 0: c.erase(a); break; case 1: c-=a; break; case 2: icl::erase(c,a); break; case 3: icl::subtract(c,a); break; default: { C d=c-a; c.swap(d); break; } } }
  else if constexpr (O==M_AND||O==M_ANDK){ switch(F>=0?F:(int)sx_choose(4)){ case 0: c&=a; break; case 1: { C s; icl::add_intersection(s,c,a); c.swap(s); break; } case 2: { C d=c&a; c.swap(d); break; } default: { C d=a&C(c); c.swap(d); break; } } }
  else { switch(F>=0?F:(int)sx_choose(4)){ case 0: c^=a; break; case 1: c.flip(a); break; case 2: icl::flip(c,a); break; default: { C d=c^a; c.swap(d); break; } } } }
template<MapOp O,class C,class A> SX_NOINLINE void applyMapMap(C& c,const A& a,int F){
  if constexpr (O==M_ADD){ switch(F>=0?F:(int)sx_choose(4)){ case 0: c+=a; break; case 1: c|=a; break; case 2: { C d(c+a); c.swap(d); break; } default: { C d(C(c)|a); c.swap(d); break; } } }
  else if constexpr (O==M_SUB){ switch(F>=0?F:(int)sx_choose(2)){ case 0: c-=a; break; default: { C d(c-a); c.swap(d); break; } } }
  else if constexpr (O==M_INS) icl::insert(c,a);
  else if constexpr (O==M_ERP) icl::erase(c,a);
  else if constexpr (O==M_ERK){ switch(F>=0?F:(int)sx_choose(3)){ case 0: c-=a; break; case 1: icl::erase(c,a); break; default: { C d(c-a); c.swap(d); break; } } }
  else if constexpr (O==M_AND||O==M_ANDK){ switch(F>=0?F:(int)sx_choose(3)){ case 0: c&=a; break; case 1: { C s; icl::add_intersection(s,c,a); c.swap(s); break; } default: { C d(c&a); c.swap(d); break; } } }
  else { switch(F>=0?F:(int)sx_choose(3)){ case 0: c^=a; break; case 1: icl::flip(c,a); break; default: { C d(c^a); c.swap(d); break; } } } }

template<class T,MapOp O,int N> inline bool expectCutM(const MSegs<T,N>& g,typename T::R a,typename T::V v,typename T::P p){ typedef typename T::K K; 
  auto l=g.atL(p), r=g.at(p); auto L=expectM<T,O>(l,hasL(a,p),v), R=expectM<T,O>(r,has(a,p),v); bool both=L.d&R.d; if(T::join) return both&!veq(L.v,R.v);
  bool old=g.border(p), end=nonempty(a)&(eq(a.s,p)|eq(a.e,p)); bool nop=T::absorb?veq(v,K::id()):false;
  if(O==M_ADD||O==M_SUB||(O==M_AND&&T::total)) return both&(old|(end&!nop)); if(O==M_XOR) return both&(old|end); if(O==M_SET) return both&!(nonempty(a)&inner(a,p))&(old|end); return both&old; }
template<class T,MapOp O,int N,int F,int W> void checkM(const typename T::C& c,const MSegs<T,N>& g,typename T::R a,typename T::V v,typename T::P x){ obsM<T>(c);
  if(W&W_CONTENT) sx_check(mveq(atM<T>(c,x),expectM<T,O>(g.at(x),has(a,x),v)),"value at every point after the operation");
  if(W&W_STRUCT){ wellM<T>(c); sx_check(cutM<T>(c,x)==expectCutM<T,O>(g,a,v,x),"borders after the operation"); } }
template<class T,MapOp O,int N,int F,int W> void mapSeg(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); auto s=symSeg<I>("arg"); auto x=symPos<I>("x"); auto r=IT<I>::rng(s); I i=IT<I>::mk(s); 
  if constexpr (O==M_ERK||O==M_ANDK){ applyMap<O>(c,i,F); checkM<T,O,N,F,W>(c,g,r,T::K::id(),x); } else { auto v=T::K::sym("argvalue"); typename T::Sg a(i,v); applyMap<O>(c,a,F); checkM<T,O,N,F,W>(c,g,r,v,x); } }
template<class T,MapOp O,int N,int F,int W> void mapElem(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); auto o=T::D::sym("key"); auto x=symPos<I>("x"); typename T::R r; r.s=T::D::before(o); r.e=T::D::after(o); typename T::C::domain_type k=T::D::from(o);
  if constexpr (O==M_ERK||O==M_ANDK){ applyMap<O>(c,k,F); checkM<T,O,N,F,W>(c,g,r,T::K::id(),x); } else { auto v=T::K::sym("argvalue"); typename T::El a(k,v); applyMap<O>(c,a,F); checkM<T,O,N,F,W>(c,g,r,v,x); } }
template<class T,class B,MapOp O,int N,int Mx,int F,int W> void mapMap(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); typename B::C b; MSegs<B,Mx> h; symM<B,Mx>(h,"arg"); fillM<B,Mx>(b,h); auto x=symPos<I>("x");
  applyMapMap<O>(c,b,F); obsM<T>(c); auto R=expectM<T,O>(g.at(x),h.at(x).d,h.at(x).v), L=expectM<T,O>(g.atL(x),h.atL(x).d,h.atL(x).v);
  if(W&W_CONTENT){ sx_check(mveq(atM<T>(c,x),R),"value at every point after the operation"); sameM<B,Mx>(b,h,"the operand map is unchanged"); }
  if(W&W_STRUCT){ wellM<T>(c); bool both=L.d&R.d, old=g.border(x), nw=h.border(x); bool ex= T::join? both&!veq(L.v,R.v) : O==M_INS? both&(old|(nw&!g.inn(x))) : O==M_ERP? both&old : both&(old|nw); sx_check(cutM<T>(c,x)==ex,"borders after the operation"); } }
// operand: a set of keys
template<class T,class B,MapOp O,int N,int Mx,int F,int W> void mapSet(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); Segs<I,Mx> h; symSegs<B,Mx>(h,"arg"); B b; fill(b,h); auto x=symPos<I>("x");
  applyMapMap<O>(c,b,F); obsM<T>(c); auto R=expectM<T,O>(g.at(x),h.mem(x),T::K::id()), L=expectM<T,O>(g.atL(x),h.memL(x),T::K::id());
  if(W&W_CONTENT){ sx_check(mveq(atM<T>(c,x),R),"value at every point after the operation"); sameSegs(b,h,"the operand set is unchanged"); }
  if(W&W_STRUCT){ wellM<T>(c); bool both=L.d&R.d; bool ex= T::join? both&!veq(L.v,R.v) : O==M_ERK? both&g.border(x) : both&(g.border(x)|h.border(x)); sx_check(cutM<T>(c,x)==ex,"borders after the operation"); } }
typedef icl::partial_absorber PA; typedef icl::partial_enricher PE; typedef icl::total_absorber TA; typedef icl::total_enricher TE;
