// Hinted add/insert and the output iterators: same contents and borders as the plain operation, for every hint position
#include "maps.hpp"
#include <boost/icl/iterator.hpp>
#ifdef THOROUGH
enum { NS=4, NP=3, ND=2 };
#else
enum { NS=3, NP=2, ND=1 };
#endif
template<class C> typename C::iterator anyPos(C& c,int n){ int k=(int)sx_choose(n+1); typename C::iterator it=c.begin(); for(int i=0;i<k;i++) ++it; return it; }
// F: 0 member add, 1 member insert, 2 free add, 3 free insert, 4 adder, 5 inserter
template<class C,int N,int F> void hintSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); auto x=symPos<I>("x"); auto r=IT<I>::rng(s);
  typename C::iterator h=anyPos(c,g.n), ret=c.end(); bool hasRet=true;
  if constexpr (F==0) ret=c.add(h,a); else if constexpr (F==1) ret=c.insert(h,a); else if constexpr (F==2) ret=icl::add(c,h,a); else if constexpr (F==3) ret=icl::insert(c,h,a); else if constexpr (F==4){ *icl::adder(c,h)=a; hasRet=false; } else { *icl::inserter(c,h)=a; hasRet=false; }
  obsSet(c); sx_check(memAt(c,x)==(g.mem(x)|has(r,x)),"content after adding at a position hint"); wellFormed(c); sx_check(cutAt(c,x)==expectCut<C,OP_ADD,N>(g,r,x),"borders after adding at a position hint");
  if(hasRet){ bool found=false, ov=false; for(typename C::iterator i=c.begin();i!=c.end();++i) if(i==ret){ found=true; ov=overlap(rngOf(*i),r); } sx_check(found|(ret==c.end()),"the returned position is valid"); if(StyleOf<C>::v!=SPLIT) sx_check(!nonempty(r)|ov,"the returned position designates a segment overlapping the operand"); } }
// two additions in a row through one output iterator
template<class C,int N,int F> void hintSet2(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); auto s=symNE<I>("arg"), t=symNE<I>("arg2"); auto x=symPos<I>("x"); auto r=IT<I>::rng(s), q=IT<I>::rng(t); I a=IT<I>::mk(s), b=IT<I>::mk(t); typename C::iterator h=anyPos(c,g.n);
  if constexpr (F==4){ auto o=icl::adder(c,h); *o++=a; *o=b; } else { auto o=icl::inserter(c,h); *o=a; ++o; *o=b; }
  obsSet(c); sx_check(memAt(c,x)==(g.mem(x)|has(r,x)|has(q,x)),"content after adding twice through an output iterator"); wellFormed(c); }
template<class T,int N,int F> void hintMap(){ typedef typename T::I I; constexpr MapOp O=(F&1)?M_INS:M_ADD; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); auto s=symSeg<I>("arg"); auto x=symPos<I>("x"); auto r=IT<I>::rng(s); auto v=T::K::sym("argvalue"); typename T::Sg a(IT<I>::mk(s),v);
  typename T::C::iterator h=anyPos(c,g.n), ret=c.end(); bool hasRet=true;
  if constexpr (F==0) ret=c.add(h,a); else if constexpr (F==1) ret=c.insert(h,a); else if constexpr (F==2) ret=icl::add(c,h,a); else if constexpr (F==3) ret=icl::insert(c,h,a); else if constexpr (F==4){ *icl::adder(c,h)=a; hasRet=false; } else { *icl::inserter(c,h)=a; hasRet=false; }
  checkM<T,O,N,0,W_CONTENT|W_STRUCT>(c,g,r,v,x);
  if(hasRet){ bool found=false; for(typename T::C::iterator i=c.begin();i!=c.end();++i) found|= i==ret; sx_check(found|(ret==c.end()),"the returned position is valid"); } }
template<class T,int N,int F> void hintMap2(){ typedef typename T::I I; constexpr MapOp O=(F&1)?M_INS:M_ADD; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); auto s=symNE<I>("arg"), t=symNE<I>("arg2"); auto x=symPos<I>("x"); auto r=IT<I>::rng(s), q=IT<I>::rng(t); auto v=T::K::sym("argvalue"), u=T::K::sym("argvalue2"); typename T::Sg a(IT<I>::mk(s),v), b(IT<I>::mk(t),u); typename T::C::iterator h=anyPos(c,g.n);
  if constexpr (F==4){ auto o=icl::adder(c,h); *o++=a; *o=b; } else { auto o=icl::inserter(c,h); *o=a; ++o; *o=b; }
  obsM<T>(c); sx_check(mveq(atM<T>(c,x),expectM<T,O>(expectM<T,O>(g.at(x),has(r,x),v),has(q,x),u)),"value after adding twice through an output iterator"); wellM<T>(c); }
#define HS(nm,C,N) HARNESS(nm##_h0){ hintSet<C,N,0>(); } HARNESS(nm##_h1){ hintSet<C,N,1>(); } HARNESS(nm##_h2){ hintSet<C,N,2>(); } HARNESS(nm##_h3){ hintSet<C,N,3>(); } HARNESS(nm##_h4){ hintSet<C,N,4>(); } HARNESS(nm##_h5){ hintSet<C,N,5>(); } HARNESS(nm##_i4){ hintSet2<C,1,4>(); } HARNESS(nm##_i5){ hintSet2<C,1,5>(); }
#define HM(nm,T,N) HARNESS(nm##_h0){ hintMap<T,N,0>(); } HARNESS(nm##_h1){ hintMap<T,N,1>(); } HARNESS(nm##_h2){ hintMap<T,N,2>(); } HARNESS(nm##_h3){ hintMap<T,N,3>(); } HARNESS(nm##_h4){ hintMap<T,N,4>(); } HARNESS(nm##_h5){ hintMap<T,N,5>(); } HARNESS(nm##_i4){ hintMap2<T,1,4>(); } HARNESS(nm##_i5){ hintMap2<T,1,5>(); }
#define HM0(nm,T,N) HARNESS(nm##_h0){ hintMap<T,N,0>(); } HARNESS(nm##_h1){ hintMap<T,N,1>(); }
#define HS0(nm,C,N) HARNESS(nm##_h0){ hintSet<C,N,0>(); } HARNESS(nm##_h1){ hintSet<C,N,1>(); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,RO<int>> sro; typedef Ps<int,RO<int>> pro; typedef Js<int,CL<int>> jcl; typedef Ss<int,OP<int>> sop; typedef Ps<int,LO<int>> plo; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Ss<int,DI<int>> sdi; typedef Js<double,CI<double>> jci; typedef Ps<double,CI<double>> pci;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TA,RO<int>> mjta; typedef JM<KPlus,TE,RO<int>> mjte; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,RO<int>> mpe; typedef PM<KPlus,TA,RO<int>> mpta; typedef PM<KPlus,TE,RO<int>> mpte; typedef JM<KSet,PA,RO<int>> sja; typedef PM<KSet,PE,RO<int>> spe; typedef JM<KApp,PA,RO<int>> aja; typedef PM<KApp,PE,RO<int>> ape; typedef JM<KMax,PE,CL<int>> xje; typedef JM<KMaxN,PE,RO<int>> xnje; typedef PM<KMaxN,PE,RO<int>> xnpe; typedef JM<KPlus,PA,DI<int>> mdi; typedef JM<KPlus,PE,CI<double>> mci;
#if SHARD==1
HS(jro,jro,NS) HS(sro,sro,NS) HS(pro,pro,NS)
#elif SHARD==2
HS0(jcl,jcl,NS) HS0(sop,sop,NS) HS0(plo,plo,NS) HS0(jdi,jdi,ND) HS0(pdi,pdi,ND) HS0(sdi,sdi,ND) HS0(jci,jci,ND) HS0(pci,pci,ND)
#elif SHARD==3
HM(mja,mja,NP) HM(mje,mje,NP) 
#elif SHARD==4
HM(mpa,mpa,NP) HM(mpe,mpe,NP)
#elif SHARD==5
HM0(mjta,mjta,NP) HM0(mjte,mjte,NP) HM0(mpta,mpta,NP) HM0(mpte,mpte,NP) HM0(sja,sja,NP) HM0(spe,spe,NP)
#elif SHARD==6
HM0(aja,aja,NP) HM0(ape,ape,NP) HM0(xje,xje,NP) HM0(xnje,xnje,NP) HM0(xnpe,xnpe,NP) HM0(mdi,mdi,ND) HM0(mci,mci,ND)
#elif SHARD==7   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=4, WM=4 };
#endif
HARNESS(w_jro_h0){ Wide w; hintSet<jro,WN,0>(); } HARNESS(w_jro_h1){ Wide w; hintSet<jro,WN,1>(); } HARNESS(w_sro_h0){ Wide w; hintSet<sro,WN,0>(); } HARNESS(w_sro_h1){ Wide w; hintSet<sro,WN,1>(); } HARNESS(w_pro_h0){ Wide w; hintSet<pro,WN,0>(); } HARNESS(w_pro_h1){ Wide w; hintSet<pro,WN,1>(); } HARNESS(w_mja_h0){ Wide w; hintMap<mja,WN,0>(); } HARNESS(w_mja_h1){ Wide w; hintMap<mja,WN,1>(); } HARNESS(w_mpa_h0){ Wide w; hintMap<mpa,WN,0>(); } HARNESS(w_mpa_h1){ Wide w; hintMap<mpa,WN,1>(); } 
#ifdef THOROUGH
HARNESS(w_mje_h0){ Wide w; hintMap<mje,WN,0>(); } HARNESS(w_mje_h1){ Wide w; hintMap<mje,WN,1>(); } HARNESS(w_mpe_h0){ Wide w; hintMap<mpe,WN,0>(); } HARNESS(w_mpe_h1){ Wide w; hintMap<mpe,WN,1>(); }
#endif
#endif
