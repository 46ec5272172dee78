// conversions between containers, domain, gaps, joining, absorbing, atomizing and clustering
#include "quant.hpp"
#include <boost/icl/set.hpp>
#include <boost/icl/map.hpp>
#include <boost/icl/detail/interval_morphism.hpp>
#ifdef THOROUGH
enum { NS=5, NP=4, ND=3, NM=4 };
#else
enum { NS=4, NP=3, ND=2, NM=3 };
#endif
template<class C,int N> inline void contentIs(const C& c,const Segs<typename C::interval_type,N>& g,typename IT<typename C::interval_type>::P x,const char* msg){ wellFormed(c); obsSet(c); sx_check(memAt(c,x)==g.mem(x),msg);
  if(StyleOf<C>::v!=JOIN) sx_check(cutAt(c,x)==(g.mem(x)&g.memL(x)&g.border(x)),"a separating or splitting target keeps the borders"); }
// C (target) from B (source)
template<class C,class B,int N> void convS(){ typedef typename C::interval_type I; auto x=symPos<I>("x"); Segs<I,N> g; symSegs<B,N>(g,"src"); B b; fill(b,g);
  switch((int)sx_choose(3)){ case 0: { C c(b); contentIs(c,g,x,"constructing from another style preserves the content"); break; }
   case 1: { Segs<I,2> j; symSegs<C,2>(j,"old"); C c; fill(c,j); c=b; contentIs(c,g,x,"assigning from another style preserves the content"); break; }
   default: { Segs<I,2> j; symSegs<C,2>(j,"old"); C c; fill(c,j); c.assign(b); contentIs(c,g,x,"assign from another style preserves the content"); } }
  sameSegs(b,g,"the source is left unchanged"); }
template<class C> void ctorS(){ typedef typename C::interval_type I; auto x=symPos<I>("x"); if(sx_choose(2)){ auto s=symSeg<I>("arg"); C c(IT<I>::mk(s)); wellFormed(c); obsSet(c); sx_check(memAt(c,x)==has(IT<I>::rng(s),x),"constructed from an interval"); }
  else { auto o=IT<I>::D::sym("key"); typename IT<I>::dom k=IT<I>::D::from(o); C c(k); typename IT<I>::R r; r.s=IT<I>::D::before(o); r.e=IT<I>::D::after(o); wellFormed(c); obsSet(c); sx_check(memAt(c,x)==has(r,x),"constructed from an element"); } }
template<class C,int N> void joinS(){ typedef typename C::interval_type I; auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); C& r=icl::join(c); sx_check(&r==&c,"join returns its argument"); wellFormed(c); obsSet(c); sx_check(memAt(c,x)==g.mem(x),"joining preserves the content"); sx_check(!cutAt(c,x),"no touching segments remain after joining"); }
template<class C,int N> void domS(){ typedef typename C::interval_type I; auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"src"); C b; fill(b,g); Segs<I,1> j; symSegs<C,1>(j,"old"); C c; fill(c,j);
  if(sx_choose(2)){ icl::domain(c,b); sameSegs(b,g,"the source is left unchanged"); wellFormed(c); obsSet(c); sx_check(memAt(c,x)==g.mem(x),"domain of a set"); }
  else { icl::between(c,b); sameSegs(b,g,"the source is left unchanged"); wellFormed(c); obsSet(c); bool in=g.n>0; if(g.n) in=le(g.r(0).s,x)&lt(x,g.r(g.n-1).e); sx_check(memAt(c,x)==(in&!g.mem(x)),"gaps of a set"); } }
template<class T,class SC,int N> void domM(){ typedef typename T::I I; auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"src"); typename T::C b; fillM<T,N>(b,g); Segs<I,1> j; symSegs<SC,1>(j,"old"); SC c; fill(c,j);
  if(sx_choose(2)){ icl::domain(c,b); wellFormed(c); obsSet(c); sx_check(memAt(c,x)==g.at(x).d,"domain of a map"); if(StyleOf<SC>::v==SPLIT) sx_check(cutAt(c,x)==(g.border(x)&g.at(x).d&g.atL(x).d),"the domain in a splitting set keeps the borders"); }
  else { icl::between(c,b); wellFormed(c); obsSet(c); bool in=g.n>0; if(g.n) in=le(g.r(0).s,x)&lt(x,g.r(g.n-1).e); sx_check(memAt(c,x)==(in&!g.at(x).d),"gaps of a map"); }
  sameM<T,N>(b,g,"the source is left unchanged"); }
template<class T,class B,int N> void mapIs(const typename T::C& c,const MSegs<B,N>& g,typename T::P x){ wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),g.at(x)),"converting a map preserves the content"); if(!T::join) sx_check(cutM<T>(c,x)==(g.border(x)&g.at(x).d&g.atL(x).d),"a splitting target keeps the borders"); }
template<class T,class B,int N> void convM(){ typedef typename T::I I; typedef typename T::C C; auto x=symPos<I>("x"); MSegs<B,N> g; symM<B,N>(g,"src"); typename B::C b; fillM<B,N>(b,g); int f=(int)sx_choose(T::join?3:2);
  if(f==2){ if constexpr (T::join){ C c(b); mapIs<T,B,N>(c,g,x); } }
  else { MSegs<T,2> j; symM<T,2>(j,"old"); C c; fillM<T,2>(c,j); if(f==0) c=b; else c.assign(b); mapIs<T,B,N>(c,g,x); }
  sameM<B,N>(b,g,"the source is left unchanged"); }
template<class T> void ctorM(){ typedef typename T::I I; typedef typename T::C C; auto x=symPos<I>("x"); auto v=T::K::sym("argvalue"); bool keep=!T::absorb|!veq(v,T::K::id()); if(sx_choose(2)){ auto s=symSeg<I>("arg"); C c(typename C::value_type(IT<I>::mk(s),v)); wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),mv<typename T::V>(has(IT<I>::rng(s),x)&keep,v)),"constructed from a segment"); }
  else { auto o=IT<I>::D::sym("key"); typename C::domain_mapping_type a(IT<I>::D::from(o),v); C c(a); typename IT<I>::R r; r.s=IT<I>::D::before(o); r.e=IT<I>::D::after(o); wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),mv<typename T::V>(has(r,x)&keep,v)),"constructed from a key/value pair"); } }
template<class T,int N> void joinM(){ typedef typename T::I I; auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"pre"); typename T::C c; fillM<T,N>(c,g);
  if(sx_choose(2)){ icl::join(c); wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),g.at(x)),"joining a map preserves the content"); sx_check(cutM<T>(c,x)==(g.at(x).d&g.atL(x).d&!veq(g.at(x).v,g.atL(x).v)),"exactly the touching segments of equal value are joined"); }
  else { icl::absorb_identities(c); wellM<T>(c); obsM<T>(c); auto m=g.at(x); m.d&=!veq(m.v,T::K::id()); sx_check(mveq(atM<T>(c,x),m),"removing neutral values removes exactly those keys"); } }
// every segment at most W elements wide
template<class G,int W> inline void narrow(const G& g){ for(int i=0;i<g.n;i++) sx_assume(g.r(i).e-g.r(i).s<=W); }
template<class C,int N,int W> void atomS(){ typedef typename C::interval_type I; typedef typename IT<I>::dom D; auto o=IT<I>::D::sym("key"); D k=IT<I>::D::from(o); auto x=IT<I>::D::before(o); Segs<I,N> g; symSegs<C,N>(g,"src"); narrow<Segs<I,N>,W>(g); C b; fill(b,g); std::set<D> a; icl::segmental::atomize(a,b); sx_check((a.find(k)!=a.end())==g.mem(x),"the elements of an interval set"); uint64_t n=0; for(int i=0;i<g.n;i++) n+=(uint64_t)(g.r(i).e-g.r(i).s); sx_check(a.size()==n,"number of elements"); }
template<class T,int N,int W> void atomM(){ typedef typename T::I I; typedef typename IT<I>::dom D; typedef icl::map<D,typename T::V,typename T::Tr,std::less,T::K::template Comb> EM; auto o=IT<I>::D::sym("key"); D k=IT<I>::D::from(o); auto x=IT<I>::D::before(o); MSegs<T,N> g; symM<T,N>(g,"src"); narrow<MSegs<T,N>,W>(g); typename T::C b; fillM<T,N>(b,g); EM a; icl::segmental::atomize(a,b); auto f=a.find(k); auto m=g.at(x); bool d=f!=a.end(); sx_check(d==m.d,"the keys of an interval map"); if(d) sx_check(veq((*f).second,m.v),"the values of an interval map"); uint64_t n=0; for(int i=0;i<g.n;i++) n+=(uint64_t)(g.r(i).e-g.r(i).s); sx_check(a.size()==n,"number of elements"); }
template<class C,int N> void clusS(){ typedef typename C::interval_type I; typedef typename IT<I>::dom D; auto x=symPos<I>("x"); std::set<D> a; int n=(int)sx_choose(N+1); bool m=false; typename IT<I>::D::ord p{}; for(int i=0;i<n;i++){ auto o=IT<I>::D::sym("key"); if(i) sx_assume(p<o); p=o; a.insert(a.end(),IT<I>::D::from(o)); m|=IT<I>::D::before(o)==x; } C c; icl::segmental::cluster(c,a); wellFormed(c); obsSet(c); sx_check(memAt(c,x)==m,"clustering elements preserves the content"); }
template<class T,int N> void clusM(){ typedef typename T::I I; typedef typename IT<I>::dom D; typedef icl::map<D,typename T::V,typename T::Tr,std::less,T::K::template Comb> EM; auto x=symPos<I>("x"); EM a; int n=(int)sx_choose(N+1); MV<typename T::V> m=mv<typename T::V>(false,T::K::id()); typename IT<I>::D::ord p{}; for(int i=0;i<n;i++){ auto o=IT<I>::D::sym("key"); auto v=T::K::sym("value"); if(T::absorb) sx_assume(!veq(v,T::K::id())); if(i) sx_assume(p<o); p=o; a.insert(typename EM::value_type(IT<I>::D::from(o),v)); m=msel(IT<I>::D::before(o)==x,mv<typename T::V>(true,v),m); } typename T::C c; icl::segmental::cluster(c,a); wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),m),"clustering a map preserves the content"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,RO<int>> sro; typedef Ps<int,RO<int>> pro; typedef Js<int,CL<int>> jcl; typedef Ss<int,CL<int>> scl; typedef Ps<int,CL<int>> pcl; typedef Ps<int,OP<int>> pop; typedef Ss<int,OP<int>> sop; typedef Js<int,OP<int>> jop; typedef Ps<int,LO<int>> plo; typedef Js<int,LO<int>> jlo; typedef Ss<int,LO<int>> slo; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Ss<int,DI<int>> sdi; typedef Js<double,CI<double>> jci; typedef Ps<double,CI<double>> pci; typedef Ss<double,CI<double>> sci; typedef Js<unsigned,RO<unsigned>> jru; typedef Ps<unsigned,RO<unsigned>> pru;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TA,RO<int>> mjta; typedef JM<KPlus,TE,RO<int>> mjte; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,RO<int>> mpe; typedef PM<KPlus,TA,RO<int>> mpta; typedef PM<KPlus,TE,RO<int>> mpte; typedef JM<KSet,PA,RO<int>> sja; typedef PM<KSet,PA,RO<int>> spa; typedef JM<KSet,PE,RO<int>> sje; typedef PM<KSet,PE,RO<int>> spe; typedef JM<KMax,PE,CL<int>> xje; typedef PM<KMax,PE,CL<int>> xpe; typedef JM<KMaxN,PE,RO<int>> nje; typedef PM<KMaxN,PE,RO<int>> npe; typedef JM<KPlus,PA,DI<int>> mdi; typedef PM<KPlus,PA,DI<int>> mpdi; typedef JM<KPlus,PE,CI<double>> mci; typedef PM<KPlus,PE,CI<double>> mpci; typedef JM<KApp,PE,RO<int>> aje; typedef PM<KApp,PE,RO<int>> ape;
#define CV(C,B,N) HARNESS(conv_##C##_##B){ convS<C,B,N>(); }
#define S1(C,N) HARNESS(ctor_##C){ ctorS<C>(); } HARNESS(join_##C){ joinS<C,N>(); } HARNESS(dom_##C){ domS<C,N>(); }
#define M1(T,N) HARNESS(ctor_##T){ ctorM<T>(); } HARNESS(join_##T){ joinM<T,N>(); }
#define MC(T,B,N) HARNESS(conv_##T##_##B){ convM<T,B,N>(); }
#define MD(T,S,N) HARNESS(dom_##T##_##S){ domM<T,S,N>(); }
#if SHARD==1
CV(jro,sro,NS) CV(jro,pro,NS) CV(sro,jro,NS) CV(sro,pro,NS) CV(pro,jro,NS) CV(pro,sro,NS) CV(jcl,pcl,NP) CV(scl,jcl,NP) CV(pcl,scl,NP) CV(jop,pop,NP) CV(sop,jop,NP) CV(jlo,slo,NP) CV(plo,jlo,NP) CV(jdi,pdi,ND) CV(pdi,sdi,ND) CV(sdi,jdi,ND) CV(jci,pci,ND) CV(sci,jci,ND) CV(pci,sci,ND) CV(jru,pru,NP)
#elif SHARD==2
S1(jro,NS) S1(sro,NS) S1(pro,NS) S1(jcl,NS) S1(scl,NP) S1(pcl,NS) S1(pop,NP) S1(sop,NP) S1(jop,NP) S1(plo,NP) S1(jlo,NP) S1(slo,NP) S1(jdi,NP) S1(pdi,ND) S1(sdi,ND) S1(jci,ND) S1(pci,ND) S1(sci,ND) S1(jru,NP) S1(pru,NP)
#elif SHARD==3
M1(mja,NS) M1(mje,NP) M1(mpa,NS) M1(mpe,NS) M1(mjta,NP) M1(mjte,NP) M1(mpta,NP) M1(mpte,NP) M1(sja,NP) M1(spa,NP) M1(sje,NP) M1(spe,NP) M1(xje,NP) M1(xpe,NP) M1(mdi,ND) M1(mpdi,ND) M1(mci,ND) M1(mpci,ND) M1(aje,NP) M1(ape,NP)
#elif SHARD==4
MC(mja,mpa,NM) MC(mpa,mja,NM) MC(mje,mpe,NM) MC(mpe,mje,NM) MC(mjta,mpta,NP) MC(mpta,mjta,NP) MC(mjte,mpte,NP) MC(mpte,mjte,NP) MC(sja,spa,NP) MC(spa,sja,NP) MC(sje,spe,NP) MC(xje,xpe,NP) MC(xpe,xje,NP) MC(nje,npe,NP) MC(npe,nje,NP) MC(mdi,mpdi,ND) MC(mpdi,mdi,ND) MC(mci,mpci,ND) MC(mpci,mci,ND) MC(aje,ape,NP) MC(ape,aje,NP)
#elif SHARD==5
MD(mja,jro,NS) MD(mja,pro,NP) MD(mpa,jro,NS) MD(mpa,pro,NP) MD(mpe,sro,NP) MD(mje,jro,NP) MD(mjte,jro,NP) MD(mpta,pro,NP) MD(xje,jcl,NP) MD(xpe,pcl,NP) MD(mdi,jdi,ND) MD(mpdi,pdi,ND) MD(mci,jci,ND) MD(mpci,pci,ND)
#elif SHARD==6
HARNESS(atom_jro){ atomS<jro,2,3>(); } HARNESS(atom_pro){ atomS<pro,2,3>(); } HARNESS(atom_scl){ atomS<scl,2,3>(); } HARNESS(atom_pop){ atomS<pop,2,3>(); } HARNESS(atom_jlo){ atomS<jlo,2,3>(); } HARNESS(atom_jdi){ atomS<jdi,2,2>(); }
HARNESS(atom_mja){ atomM<mja,2,3>(); } HARNESS(atom_mpe){ atomM<mpe,2,3>(); } HARNESS(atom_xje){ atomM<xje,2,2>(); } HARNESS(atom_mdi){ atomM<mdi,2,2>(); }
HARNESS(clus_jro){ clusS<jro,NM>(); } HARNESS(clus_pro){ clusS<pro,NM>(); } HARNESS(clus_scl){ clusS<scl,NM>(); } HARNESS(clus_pop){ clusS<pop,NM>(); } HARNESS(clus_jdi){ clusS<jdi,ND>(); } HARNESS(clus_jlo){ clusS<jlo,NM>(); }
HARNESS(clus_mja){ clusM<mja,NM>(); } HARNESS(clus_mpa){ clusM<mpa,NM>(); } HARNESS(clus_mpe){ clusM<mpe,NM>(); } HARNESS(clus_xje){ clusM<xje,NM>(); } HARNESS(clus_sja){ clusM<sja,ND>(); } HARNESS(clus_mdi){ clusM<mdi,ND>(); }
#elif SHARD==7   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=6, WM=7 };
#endif
HARNESS(w_conv_jro_pro){ Wide w; convS<jro,pro,WN>(); } HARNESS(w_conv_sro_pro){ Wide w; convS<sro,pro,WN>(); } HARNESS(w_conv_pro_jro){ Wide w; convS<pro,jro,WN>(); } HARNESS(w_join_jro){ Wide w; joinS<jro,WN>(); } HARNESS(w_join_pro){ Wide w; joinS<pro,WN>(); } HARNESS(w_dom_jro){ Wide w; domS<jro,WN>(); } HARNESS(w_dom_pro){ Wide w; domS<pro,WN>(); } HARNESS(w_join_mja){ Wide w; joinM<mja,WN>(); } HARNESS(w_join_mpa){ Wide w; joinM<mpa,WN>(); } HARNESS(w_join_mpe){ Wide w; joinM<mpe,WN>(); } HARNESS(w_conv_mja_mpa){ Wide w; convM<mja,mpa,WN>(); } HARNESS(w_conv_mpa_mja){ Wide w; convM<mpa,mja,WN>(); } HARNESS(w_dom_mja_jro){ Wide w; domM<mja,jro,WN>(); } HARNESS(w_dom_mpa_pro){ Wide w; domM<mpa,pro,WN>(); }
#endif
