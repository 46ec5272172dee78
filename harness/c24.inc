// erase_if / add_if / assign_if with an arbitrary predicate: one symbolic outcome per segment
#include "quant.hpp"
#include <boost/icl/set.hpp>
#include <boost/icl/map.hpp>
#ifdef THOROUGH
enum { NS=3, NP=2, ND=2, NJ=2 };
#else
enum { NS=2, NP=2, ND=1, NJ=2 };
#endif
template<class T,int N> struct Pred { const MSegs<T,N>& g; const bool* b; Pred(const MSegs<T,N>& g_,const bool* b_):g(g_),b(b_){}
  template<class S> bool operator()(const S& s)const { auto r=rngOf(s.first); bool y=false; for(int i=0;i<g.n;i++) y|=eq(g.r(i).s,r.s)&b[i]; return y; } };
template<class T,int N> inline MV<typename T::V> sub(const MSegs<T,N>& g,const bool* b,bool want,typename T::P p){ MV<typename T::V> m=mv<typename T::V>(false,T::K::id()); for(int i=0;i<g.n;i++){ bool h=has(g.r(i),p)&(b[i]==want); m.d|=h; m.v=sel(h,g.v[i],m.v); } return m; }
template<class T,int N,int F> void filtM(){ typedef typename T::I I; typedef typename T::C C; auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"src"); bool b[N]; for(int i=0;i<g.n;i++) b[i]=sx_bool("matches"); C s; fillM<T,N>(s,g); Pred<T,N> p(g,b);
  switch(F){ case 0: { C& r=icl::erase_if(p,s); sx_check(&r==&s,"returns the container"); wellM<T>(s); obsM<T>(s); sx_check(mveq(atM<T>(s,x),sub<T,N>(g,b,false,x)),"erasing by predicate removes exactly the matching segments"); return; }
   case 1: { MSegs<T,NJ> j; symM<T,NJ>(j,"old"); C c; fillM<T,NJ>(c,j); icl::add_if(p,c,s); wellM<T>(c); obsM<T>(c); auto m=sub<T,N>(g,b,true,x); sx_check(mveq(atM<T>(c,x),expectM<T,M_ADD>(j.at(x),m.d,m.v)),"adding by predicate adds exactly the matching segments"); break; }
   default: { MSegs<T,1> j; symM<T,1>(j,"old"); C c; fillM<T,1>(c,j); icl::assign_if(p,c,s); wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),sub<T,N>(g,b,true,x)),"assigning by predicate keeps exactly the matching segments"); } }
  sameM<T,N>(s,g,"the source is left unchanged"); }
// element containers
template<class D,int N> struct Keys { D k[N]; bool b[N]; int n; bool mem(D x)const{ bool m=false; for(int i=0;i<n;i++) m|=k[i]==x; return m; } bool hit(D x,bool w)const{ bool m=false; for(int i=0;i<n;i++) m|=(k[i]==x)&(b[i]==w); return m; } bool operator()(const D& x)const{ return hit(x,true); } template<class V> bool operator()(const std::pair<const D,V>& p)const{ return hit(p.first,true); } };
template<class D,int N> inline void symKeys(Keys<D,N>& g,const char* nm){ g.n=(int)sx_choose(N+1); for(int i=0;i<g.n;i++){ g.k[i]=Dom<D>::sym(nm); g.b[i]=sx_bool("matches"); if(i) sx_assume(g.k[i-1]<g.k[i]); } }
template<class D,int N> void filtES(){ typedef std::set<D> C; D x=Dom<D>::sym("x"); Keys<D,N> g; symKeys(g,"src"); C s; for(int i=0;i<g.n;i++) s.insert(s.end(),g.k[i]);
  switch((int)sx_choose(3)){ case 0: icl::erase_if(g,s); sx_check((s.find(x)!=s.end())==g.hit(x,false),"erasing by predicate removes exactly the matching elements"); return;
   case 1: { Keys<D,NJ> j; symKeys(j,"old"); C c; for(int i=0;i<j.n;i++) c.insert(c.end(),j.k[i]); icl::add_if(g,c,s); sx_check((c.find(x)!=c.end())==(j.mem(x)|g.hit(x,true)),"adding by predicate adds exactly the matching elements"); break; }
   default: { Keys<D,1> j; symKeys(j,"old"); C c; for(int i=0;i<j.n;i++) c.insert(c.end(),j.k[i]); icl::assign_if(g,c,s); sx_check((c.find(x)!=c.end())==g.hit(x,true),"assigning by predicate keeps exactly the matching elements"); } }
  sx_check(s.size()==(uint64_t)g.n,"the source is left unchanged"); }
template<class K,class Tr,int N> void filtEM(){ typedef int D; typedef icl::map<D,typename K::V,Tr,std::less,K::template Comb> C; typedef MT<K,Tr,RO<int>,true> T; typedef typename K::V V; D x=Dom<D>::sym("x"); Keys<D,N> g; symKeys(g,"src"); V v[N]; C s; auto val=[&]{ V w=K::sym("value"); if(T::absorb) sx_assume(!veq(w,K::id())); return w; };
  MV<V> all=mv<V>(false,K::id()); for(int i=0;i<g.n;i++){ v[i]=val(); s.insert(typename C::value_type(g.k[i],v[i])); all=msel(g.k[i]==x,mv<V>(true,v[i]),all); }
  auto at=[&](const C& c){ auto f=c.find(x); MV<V> m=mv<V>(false,K::id()); if(f!=c.end()){ m.d=true; m.v=(*f).second; } return m; };
  MV<V> yes=all, no=all; yes.d&=g.hit(x,true); no.d&=g.hit(x,false);
  switch((int)sx_choose(3)){ case 0: icl::erase_if(g,s); sx_check(mveq(at(s),no),"erasing by predicate removes exactly the matching elements"); return;
   case 1: { Keys<D,NJ> j; symKeys(j,"old"); C c; MV<V> old=mv<V>(false,K::id()); for(int i=0;i<j.n;i++){ V w=val(); c.insert(typename C::value_type(j.k[i],w)); old=msel(j.k[i]==x,mv<V>(true,w),old); } icl::add_if(g,c,s); sx_check(mveq(at(c),expectM<T,M_ADD>(old,yes.d,yes.v)),"adding by predicate adds exactly the matching elements"); break; }
   default: { Keys<D,1> j; symKeys(j,"old"); C c; for(int i=0;i<j.n;i++) c.insert(typename C::value_type(j.k[i],val())); icl::assign_if(g,c,s); sx_check(mveq(at(c),yes),"assigning by predicate keeps exactly the matching elements"); } }
  sx_check(mveq(at(s),all),"the source is left unchanged"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
#define FM(NM,T,N) HARNESS(erase_##NM){ filtM<T,N+2,0>(); } HARNESS(add_##NM){ filtM<T,N,1>(); } HARNESS(assign_##NM){ filtM<T,N,2>(); }
#define A(...) __VA_ARGS__
#if SHARD==1
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TA,RO<int>> mjta; typedef JM<KPlus,TE,RO<int>> mjte; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,RO<int>> mpe; typedef PM<KPlus,TA,RO<int>> mpta; typedef PM<KPlus,TE,RO<int>> mpte;
FM(mja,mja,NS) FM(mje,mje,NP) FM(mjta,mjta,NP) FM(mjte,mjte,NP) FM(mpa,mpa,NP) FM(mpe,mpe,NP) FM(mpta,mpta,NP) FM(mpte,mpte,NP)
#elif SHARD==2
typedef JM<KSet,PA,RO<int>> sja; typedef PM<KSet,PE,RO<int>> spe; typedef JM<KMax,PE,CL<int>> xje; typedef JM<KPlus,PA,LO<int>> lja; typedef PM<KPlus,PA,OP<int>> opa; typedef JM<KPlus,PA,DI<int>> mdi; typedef PM<KPlus,PA,DI<int>> mpdi; typedef JM<KPlus,PE,CI<double>> mci; typedef JM<KApp,PE,RO<int>> aje; typedef PM<KApp,PE,RO<int>> ape;
FM(sja,sja,NP) FM(spe,spe,NP) FM(xje,xje,NP) FM(lja,lja,NP) FM(opa,opa,NP) FM(mdi,mdi,ND) FM(mpdi,mpdi,ND) FM(mci,mci,ND) FM(aje,aje,NP) FM(ape,ape,NP)
#elif SHARD==3
HARNESS(filt_set){ filtES<int,NP>(); } HARNESS(filt_uset){ filtES<unsigned,NP>(); } HARNESS(filt_dset){ filtES<double,ND>(); }
HARNESS(filt_mpa){ filtEM<KPlus,PA,NP>(); } HARNESS(filt_mpe){ filtEM<KPlus,PE,NP>(); } HARNESS(filt_mta){ filtEM<KPlus,TA,NP>(); } HARNESS(filt_mte){ filtEM<KPlus,TE,NP>(); } HARNESS(filt_ms){ filtEM<KSet,PA,NP>(); } HARNESS(filt_mx){ filtEM<KMax,PE,NP>(); }
#elif SHARD==4   // wide
typedef JM<KPlus,PA,RO<int>> mja; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,RO<int>> mpe;
HARNESS(w_erase_mja){ Wide w; filtM<mja,6,0>(); } HARNESS(w_erase_mpe){ Wide w; filtM<mpe,6,0>(); } HARNESS(w_assign_mja){ Wide w; filtM<mja,5,2>(); } HARNESS(w_assign_mpa){ Wide w; filtM<mpa,5,2>(); }
#endif
