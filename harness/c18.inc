// contains / within / intersects / disjoint on containers
#include "quant.hpp"
#ifdef THOROUGH
enum { NS=4, NP=3, ND=2, NM=3 };
#else
enum { NS=3, NP=2, ND=1, NM=2 };
#endif
#define BOTH(c,a,e,msg) { bool r1=icl::contains(c,a); bool r2=icl::within(a,c); sx_observe(r1); sx_check(r1==(e),msg ": contains"); sx_check(r2==(e),msg ": within"); }
#define OVER(c,a,e,msg) { bool r1=icl::intersects(c,a); bool r2=icl::disjoint(c,a); sx_observe(r1); sx_check(r1==(e),msg ": intersects"); sx_check(r2==!(e),msg ": disjoint"); }
template<class C,int N> void inSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); switch((int)sx_choose(2)){
  case 0: { auto o=IT<I>::D::sym("key"); typename IT<I>::dom k=IT<I>::D::from(o); bool e=g.mem(IT<I>::D::before(o)); BOTH(c,k,e,"element") OVER(c,k,e,"element") break; }
  default: { auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); auto r=IT<I>::rng(s); Pts<I,2*N+2> t; t.of(r); t.of(g); BOTH(c,a,(all(t,[&](auto q){ return !has(r,q)|g.mem(q); })),"interval") OVER(c,a,(some(t,[&](auto q){ return has(r,q)&g.mem(q); })),"interval") } }
  sx_check(icl::is_empty(c)==(g.n==0),"emptiness"); sx_check(c.empty()==(g.n==0),"emptiness (member)"); sameSegs(c,g,"asking leaves the container unchanged"); }
template<class C,class B,int N,int M> void inSets(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); Segs<I,M> h; symSegs<B,M>(h,"arg"); B b; fill(b,h); Pts<I,2*N+2*M> t; t.of(g); t.of(h);
  switch((int)sx_choose(2)){ case 0: BOTH(c,b,(all(t,[&](auto q){ return !h.mem(q)|g.mem(q); })),"set") break; default: OVER(c,b,(some(t,[&](auto q){ return h.mem(q)&g.mem(q); })),"set") } }
template<class T,int N> void inMap(){ typedef typename T::I I; typedef typename T::C C; C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); switch((int)sx_choose(4)){
  case 0: { auto o=T::D::sym("key"); typename C::domain_type k=T::D::from(o); bool e=T::total|g.at(T::D::before(o)).d; BOTH(c,k,e,"key") OVER(c,k,e,"key") break; }
  case 1: { auto o=T::D::sym("key"); auto v=T::K::sym("argvalue"); typename T::El a(T::D::from(o),v); auto m=g.at(T::D::before(o)); bool e=m.d&veq(m.v,v); BOTH(c,a,e,"key/value pair") break; }
  case 2: { auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); auto r=IT<I>::rng(s); Pts<I,2*N+2> t; t.of(r); t.ofM(g); BOTH(c,a,(T::total|all(t,[&](auto q){ return !has(r,q)|g.at(q).d; })),"interval of keys") if(!T::total) OVER(c,a,(some(t,[&](auto q){ return has(r,q)&g.at(q).d; })),"interval of keys") break; }
  default: { auto s=symSeg<I>("arg"); auto v=T::K::sym("argvalue"); typename T::Sg a(IT<I>::mk(s),v); auto r=IT<I>::rng(s); Pts<I,2*N+2> t; t.of(r); t.ofM(g); BOTH(c,a,(all(t,[&](auto q){ auto m=g.at(q); return !has(r,q)|(m.d&veq(m.v,v)); })),"segment") } }
  sx_check(icl::is_empty(c)==(g.n==0),"emptiness"); sx_check(c.empty()==(g.n==0),"emptiness (member)"); sameM<T,N>(c,g,"asking leaves the container unchanged"); }
// overlap with key/value operands: exactly when the intersection is not empty
template<class T,int N> void hitMap(){ typedef typename T::I I; typedef typename T::C C; C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); auto v=T::K::sym("argvalue"); switch((int)sx_choose(2)){
  case 0: { auto o=T::D::sym("key"); typename T::El a(T::D::from(o),v); OVER(c,a,(T::total|expectM<T,M_AND>(g.at(T::D::before(o)),true,v).d),"key/value pair") break; }
  default: { auto s=symSeg<I>("arg"); typename T::Sg a(IT<I>::mk(s),v); auto r=IT<I>::rng(s); Pts<I,2*N+2> t; t.of(r); t.ofM(g); OVER(c,a,(T::total|some(t,[&](auto q){ return expectM<T,M_AND>(g.at(q),has(r,q),v).d; })),"segment") } } }
template<class V> inline bool vsub(V a,V b){ return veq(a,b); } inline bool vsub(BS a,BS b){ return (a.b&~b.b)==0; }
template<class T,class B,int N,int M> void inMaps(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); typename B::C b; MSegs<B,M> h; symM<B,M>(h,"arg"); fillM<B,M>(b,h); Pts<I,2*N+2*M> t; t.ofM(g); t.ofM(h);
  switch((int)sx_choose(2)){ case 0: BOTH(c,b,(all(t,[&](auto q){ auto x=g.at(q), y=h.at(q); return !y.d|(x.d&vsub(y.v,x.v)); })),"map") break; default: OVER(c,b,(T::total|some(t,[&](auto q){ auto x=g.at(q), y=h.at(q); return expectM<T,M_AND>(x,y.d,y.v).d; })),"map") } }
template<class T,class B,int N,int M> void inMapSet(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); Segs<I,M> h; symSegs<B,M>(h,"arg"); B b; fill(b,h); Pts<I,2*N+2*M> t; t.ofM(g); t.of(h);
  switch((int)sx_choose(2)){ case 0: if constexpr (!T::total) BOTH(c,b,(all(t,[&](auto q){ return !h.mem(q)|g.at(q).d; })),"set of keys") break; default: OVER(c,b,(some(t,[&](auto q){ return h.mem(q)&g.at(q).d; })),"set of keys") } }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,RO<int>> sro; typedef Ps<int,RO<int>> pro; typedef Js<int,CL<int>> jcl; typedef Ss<int,CL<int>> scl; typedef Ps<int,OP<int>> pop; typedef Ps<int,LO<int>> plo; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Ss<int,DI<int>> sdi; typedef Js<double,CI<double>> jci; typedef Ps<double,CI<double>> pci; typedef Js<unsigned,RO<unsigned>> jru;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TA,RO<int>> mjta; typedef JM<KPlus,TE,RO<int>> mjte; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,RO<int>> mpe; typedef PM<KPlus,TE,RO<int>> mpte; typedef JM<KSet,PA,RO<int>> sja; typedef PM<KSet,PE,RO<int>> spe; typedef JM<KMax,PE,CL<int>> xje; typedef JM<KPlus,PA,DI<int>> mdi; typedef PM<KPlus,PA,DI<int>> mpdi; typedef JM<KPlus,PE,CI<double>> mci;
#define S1(C,N) HARNESS(in_##C){ inSet<C,N>(); }
#define S2(C,B,N,M) HARNESS(in_##C##_##B){ inSets<C,B,N,M>(); }
#define M1(T,N) HARNESS(in_##T){ inMap<T,N>(); } HARNESS(hit_##T){ hitMap<T,N>(); }
#define M2(T,B,N,M) HARNESS(in_##T##_##B){ inMaps<T,B,N,M>(); }
#define M2x(T,B,N,M) HARNESS(inx_##T##_##B){ inMaps<T,B,N,M>(); }
#define MS(T,B,N,M) HARNESS(in_##T##_##B){ inMapSet<T,B,N,M>(); }
#if SHARD==1
S1(jro,NS) S1(sro,NS) S1(pro,NS) S1(jcl,NS) S1(scl,NS) S1(pop,NS) S1(plo,NS) S1(jdi,NP) S1(pdi,NP) S1(sdi,NP) S1(jci,NP) S1(pci,NP) S1(jru,NS)
#elif SHARD==2
S2(jro,jro,NS,NS) S2(pro,jro,NS,NP) S2(jro,pro,NP,NS) S2(sro,pro,NP,NP) S2(pro,sro,NP,NP) S2(pro,pro,NP,NP)
#elif SHARD==3
S2(jcl,scl,NP,NP) S2(plo,plo,NP,NP) S2(pop,pop,NP,NP) S2(jdi,pdi,ND,ND) S2(pdi,pdi,ND,ND) S2(pci,jci,ND,ND) S2(jru,jru,NP,NP)
#elif SHARD==4
M1(mja,NS) M1(mje,NP) M1(mpa,NS) M1(mpe,NP) M1(mjta,NP) M1(mjte,NP) M1(mpte,NP)
#elif SHARD==5
M1(sja,NP) M1(spe,NP) M1(xje,NP) M1(mdi,ND) M1(mpdi,ND) M1(mci,ND)
#elif SHARD==6
M2(mja,mja,NP,NP) M2(mja,mpa,NP,NM) M2(mpa,mja,NM,NP) M2(mpe,mpe,NM,NP) M2(mje,mpe,NP,NP)  M2(mjte,mjte,NP,NP)
M2x(mpa,mja,NS,1) M2x(mja,mpa,1,NS) M2x(mpe,mje,1,NS) M2x(mpe,mpe,NS,1)
#elif SHARD==7
M2(sja,sja,NP,NP) M2(spe,spe,NP,ND) M2(xje,xje,NP,NP) M2(mpdi,mpdi,ND,ND) M2(mci,mci,ND,ND)
#elif SHARD==8
MS(mja,jro,NP,NS) MS(mpa,pro,NM,NP) MS(mpe,sro,NM,NP) MS(mjta,jro,NP,NP) MS(mjte,pro,NP,NP) MS(xje,jcl,NP,NP) MS(mdi,jdi,ND,ND) MS(mpdi,pdi,ND,ND) MS(mci,jci,ND,ND)
#elif SHARD==9   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=6, WM=7 };
#endif
HARNESS(w_jro){ Wide w; inSet<jro,WN>(); } HARNESS(w_sro){ Wide w; inSet<sro,WN>(); } HARNESS(w_pro){ Wide w; inSet<pro,WN>(); } HARNESS(w_jdi){ Wide w; inSet<jdi,WN>(); } HARNESS(w_jro_jro){ Wide w; inSets<jro,jro,WN,WM>(); } HARNESS(w_jro_pro){ Wide w; inSets<jro,pro,WN,WM>(); } HARNESS(w_pro_jro){ Wide w; inSets<pro,jro,WN,WM>(); } HARNESS(w_pro_pro){ Wide w; inSets<pro,pro,WN,WM>(); } HARNESS(w_sro_sro){ Wide w; inSets<sro,sro,WN,WM>(); } HARNESS(w_jdi_pdi){ Wide w; inSets<jdi,pdi,WN,WM>(); } HARNESS(w_mja){ Wide w; inMap<mja,WN>(); } HARNESS(w_mpa){ Wide w; inMap<mpa,WN>(); } HARNESS(w_mje){ Wide w; inMap<mje,WN>(); } HARNESS(w_sja){ Wide w; inMap<sja,WN>(); } HARNESS(w_mja_mja){ Wide w; inMaps<mja,mja,WN,WM>(); } HARNESS(w_mja_mpa){ Wide w; inMaps<mja,mpa,WN,WM>(); } HARNESS(w_mpa_mja){ Wide w; inMaps<mpa,mja,WN,WM>(); } HARNESS(w_mpe_mpe){ Wide w; inMaps<mpe,mpe,WN,WM>(); } HARNESS(w_sja_sja){ Wide w; inMaps<sja,sja,WN,WM>(); } HARNESS(w_mja_jro){ Wide w; inMapSet<mja,jro,WN,WM>(); } HARNESS(w_mpa_pro){ Wide w; inMapSet<mpa,pro,WN,WM>(); }
#endif
