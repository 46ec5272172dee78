// Equality, element orderings, container orderings, inclusion comparison
#include "quant.hpp"
#ifdef THOROUGH
enum { NS=3, NP=3, ND=2 };
#else
enum { NS=2, NP=2, ND=1 };
#endif
template<class V> inline bool vsub(V a,V b){ return veq(a,b); } inline bool vsub(BS a,BS b){ return (a.b&~b.b)==0; }
inline bool vlt(int a,int b){ return a<b; } inline bool vlt(BS a,BS b){ return a.b<b.b; }
// first point at which two piecewise functions differ decides
template<class I,int M,class A,class B> inline bool elemLess(const Pts<I,M>& t,A a,B b){ bool r=false; for(int i=0;i<t.n;i++){ auto q=t.p[i]; auto x=a(q), y=b(q); bool first=!mveq(x,y), amore=false, bmore=false; for(int j=0;j<t.n;j++) if(j!=i){ auto p=t.p[j]; auto u=a(p), w=b(p); first&=!lt(p,q)|mveq(u,w); amore|=lt(q,p)&u.d; bmore|=lt(q,p)&w.d; }
   bool less=(x.d&y.d&vlt(x.v,y.v)) | (x.d&!y.d&bmore) | (!x.d&y.d&!amore); r|=first&less; } return r; }
template<class G> inline MV<int> sv(const G& g,typename G::P q){ return mv<int>(g.mem(q),0); }
template<class P> inline bool rl(Rng<P> a,Rng<P> b){ return lt(a.s,b.s)|(eq(a.s,b.s)&lt(a.e,b.e)); } template<class P> inline bool re(Rng<P> a,Rng<P> b){ return eq(a.s,b.s)&eq(a.e,b.e); }
template<class C,class B,int N,int M> void eqSets(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"left"); C c; fill(c,g); Segs<I,M> h; symSegs<B,M>(h,"right"); B b; fill(b,h); Pts<I,2*N+2*M> t; t.of(g); t.of(h);
  auto A=[&](auto q){ return sv(g,q); }; auto H=[&](auto q){ return sv(h,q); };
  switch((int)sx_choose(4)){ case 0: { bool r=icl::is_element_equal(c,b); sx_observe(r); sx_check(r==all(t,[&](auto q){ return g.mem(q)==h.mem(q); }),"is_element_equal"); break; }
   case 1: { bool r=icl::is_element_less(c,b); sx_observe(r); sx_check(r==elemLess(t,A,H),"is_element_less"); break; }
   case 2: { bool r=icl::is_element_greater(c,b); sx_observe(r); sx_check(r==elemLess(t,H,A),"is_element_greater"); break; }
   default: { int r=icl::inclusion_compare(c,b); sx_observe(r); bool sb=all(t,[&](auto q){ return !g.mem(q)|h.mem(q); }), sp=all(t,[&](auto q){ return !h.mem(q)|g.mem(q); }); int e=(sb?icl::inclusion::subset:0)|(sp?icl::inclusion::superset:0); sx_check(r==e,"inclusion_compare"); } }
  sameSegs(c,g,"left operand unchanged"); sameSegs(b,h,"right operand unchanged"); }
template<class C,int N> void ordSet(){ typedef typename C::interval_type I; Segs<I,N> g,h; symSegs<C,N>(g,"left"); C c; fill(c,g); symSegs<C,N>(h,"right"); C b; fill(b,h); bool same=g.n==h.n, less=false, pre=true; int n=g.n<h.n?g.n:h.n; for(int i=0;i<n;i++){ same&=re(g.r(i),h.r(i)); less|=pre&rl(g.r(i),h.r(i)); pre&=re(g.r(i),h.r(i)); } if(g.n<h.n) less|=pre;
  switch((int)sx_choose(6)){ case 0: sx_check((c==b)==same,"=="); break; case 1: sx_check((c!=b)==!same,"!="); break; case 2: sx_check((c<b)==less,"<"); break; case 3: sx_check((b>c)==less,">"); break; case 4: sx_check((c>=b)==!less,">="); break; default: sx_check((b<=c)==!less,"<="); } sx_check((c==c)&!(c<c),"an object compared with itself"); }
template<class T,class B,int N,int M> void eqMaps(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"left"); fillM<T,N>(c,g); typename B::C b; MSegs<B,M> h; symM<B,M>(h,"right"); fillM<B,M>(b,h); Pts<I,2*N+2*M> t; t.ofM(g); t.ofM(h); auto A=[&](auto q){ return g.at(q); }; auto H=[&](auto q){ return h.at(q); };
  switch((int)sx_choose(5)){ case 0: { bool r=icl::is_element_equal(c,b); sx_observe(r); sx_check(r==all(t,[&](auto q){ return mveq(A(q),H(q)); }),"is_element_equal"); break; }
   case 1: { bool r=icl::is_element_less(c,b); sx_observe(r); sx_check(r==elemLess(t,A,H),"is_element_less"); break; }
   case 2: { bool r=icl::is_element_greater(c,b); sx_observe(r); sx_check(r==elemLess(t,H,A),"is_element_greater"); break; }
   case 3: { bool r=icl::is_distinct_equal(c,b); sx_observe(r); sx_check(r==all(t,[&](auto q){ auto x=A(q), y=H(q); x.d&=!veq(x.v,T::K::id()); y.d&=!veq(y.v,T::K::id()); return mveq(x,y); }),"is_distinct_equal"); break; }
   default: { int r=icl::inclusion_compare(c,b); sx_observe(r); bool sb=all(t,[&](auto q){ auto x=A(q), y=H(q); return !x.d|(y.d&vsub(x.v,y.v)); }), sp=all(t,[&](auto q){ auto x=A(q), y=H(q); return !y.d|(x.d&vsub(y.v,x.v)); }); int e=(sb?icl::inclusion::subset:0)|(sp?icl::inclusion::superset:0); sx_check(r==e,"inclusion_compare"); } }
  sameM<T,N>(c,g,"left operand unchanged"); sameM<B,M>(b,h,"right operand unchanged"); }
template<class T,class B,int N,int M> void eqMapSet(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"left"); fillM<T,N>(c,g); Segs<I,M> h; symSegs<B,M>(h,"right"); B b; fill(b,h); Pts<I,2*N+2*M> t; t.ofM(g); t.of(h);
  bool sb=all(t,[&](auto q){ return !g.at(q).d|h.mem(q); }), sp=all(t,[&](auto q){ return !h.mem(q)|g.at(q).d; }); int e=(sb?icl::inclusion::subset:0)|(sp?icl::inclusion::superset:0), f=(sb?icl::inclusion::superset:0)|(sp?icl::inclusion::subset:0);
  int r=icl::inclusion_compare(c,b), s=icl::inclusion_compare(b,c); sx_observe(r); sx_check(r==e,"inclusion_compare of a map with a set"); sx_check(s==f,"inclusion_compare of a set with a map"); }
template<class T,int N> void ordMap(){ typedef typename T::I I; typename T::C c,b; MSegs<T,N> g,h; symM<T,N>(g,"left"); fillM<T,N>(c,g); symM<T,N>(h,"right"); fillM<T,N>(b,h); bool same=g.n==h.n, less=false, pre=true; int n=g.n<h.n?g.n:h.n; for(int i=0;i<n;i++){ bool ri=re(g.r(i),h.r(i)), se=ri&veq(g.v[i],h.v[i]); same&=se; less|=pre&(rl(g.r(i),h.r(i))|(ri&vlt(g.v[i],h.v[i]))); pre&=se; } if(g.n<h.n) less|=pre;
  switch((int)sx_choose(6)){ case 0: sx_check((c==b)==same,"=="); break; case 1: sx_check((c!=b)==!same,"!="); break; case 2: sx_check((c<b)==less,"<"); break; case 3: sx_check((b>c)==less,">"); break; case 4: sx_check((c>=b)==!less,">="); break; default: sx_check((b<=c)==!less,"<="); } sx_check((c==c)&!(c<c),"an object compared with itself"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,RO<int>> sro; typedef Ps<int,RO<int>> pro; typedef Js<int,CL<int>> jcl; typedef Ss<int,CL<int>> scl; typedef Ps<int,OP<int>> pop; typedef Ps<int,LO<int>> plo; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Ss<int,DI<int>> sdi; typedef Js<double,CI<double>> jci; typedef Ps<double,CI<double>> pci; typedef Js<unsigned,RO<unsigned>> jru;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TA,RO<int>> mjta; typedef JM<KPlus,TE,RO<int>> mjte; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,RO<int>> mpe; typedef PM<KPlus,TE,RO<int>> mpte; typedef JM<KSet,PA,RO<int>> sja; typedef PM<KSet,PE,RO<int>> spe; typedef JM<KMax,PE,CL<int>> xje; typedef JM<KPlus,PA,DI<int>> mdi; typedef PM<KPlus,PA,DI<int>> mpdi; typedef JM<KPlus,PE,CI<double>> mci;
#define S2(C,B,N,M) HARNESS(eq_##C##_##B){ eqSets<C,B,N,M>(); }
#define S1(C,N) HARNESS(ord_##C){ ordSet<C,N>(); }
#define M2(T,B,N,M) HARNESS(eq_##T##_##B){ eqMaps<T,B,N,M>(); }
#define M1(T,N) HARNESS(ord_##T){ ordMap<T,N>(); }
#define MS(T,B,N,M) HARNESS(eq_##T##_##B){ eqMapSet<T,B,N,M>(); }
#if SHARD==1
S2(jro,jro,NP,NP) S2(pro,jro,3,NP) S2(jro,pro,NP,3) S2(sro,pro,NP,NP) S2(pro,pro,NP,NP) S2(jcl,scl,NP,NP)
#elif SHARD==2
S2(plo,plo,NP,NP) S2(pop,pop,NP,NP) S2(jdi,pdi,ND,ND) S2(pdi,pdi,ND,ND) S2(pci,jci,ND,ND) S2(jru,jru,NP,NP)
#elif SHARD==3
S1(jro,NS) S1(sro,NS) S1(pro,NS) S1(jcl,NS) S1(pop,NS) S1(plo,NS) S1(jdi,ND) S1(pdi,ND) S1(jci,NS)
#elif SHARD==4
M2(mja,mja,NP,NP) M2(mja,mpa,NP,NP) M2(mpa,mja,NP,NP)
#elif SHARD==5
M2(mpe,mpe,NP,NP) M2(mje,mpe,NP,NP) M2(mjte,mjte,NP,NP)
#elif SHARD==6
M2(sja,sja,NP,NP) M2(spe,spe,NP,ND) M2(xje,xje,NP,NP) M2(mpdi,mpdi,ND,ND) M2(mci,mci,ND,ND)
#elif SHARD==7
M1(mja,NS) M1(mje,NS) M1(mpe,NS) M1(mpa,NS) M1(mjte,NS) M1(sja,NS) M1(xje,NS) M1(mdi,ND) M1(mci,ND)
#elif SHARD==8
MS(mja,jro,NP,NS) MS(mpa,pro,NP,NP) MS(mpe,sro,NP,NP) MS(mjte,pro,NP,NP) MS(xje,jcl,NP,NP) MS(mdi,jdi,ND,ND) MS(mpdi,pdi,ND,ND) MS(mci,jci,ND,ND)
#elif SHARD==9   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=5, WM=6 };
#endif
HARNESS(w_eq_jro_jro){ Wide w; eqSets<jro,jro,WN,WM>(); } HARNESS(w_eq_jro_pro){ Wide w; eqSets<jro,pro,WN,WM>(); } HARNESS(w_eq_pro_jro){ Wide w; eqSets<pro,jro,WN,WM>(); } HARNESS(w_eq_pro_pro){ Wide w; eqSets<pro,pro,WN,WM>(); } HARNESS(w_eq_sro_pro){ Wide w; eqSets<sro,pro,WN,WM>(); } HARNESS(w_eq_jdi_pdi){ Wide w; eqSets<jdi,pdi,WN,WM>(); } HARNESS(w_ord_jro){ Wide w; ordSet<jro,WN>(); } HARNESS(w_ord_pro){ Wide w; ordSet<pro,WN>(); } HARNESS(w_eq_mja_mja){ Wide w; eqMaps<mja,mja,WN,WM>(); } HARNESS(w_eq_mja_mpa){ Wide w; eqMaps<mja,mpa,WN,WM>(); } HARNESS(w_eq_mpa_mja){ Wide w; eqMaps<mpa,mja,WN,WM>(); } HARNESS(w_eq_mpe_mpe){ Wide w; eqMaps<mpe,mpe,WN,WM>(); } HARNESS(w_eq_sja_sja){ Wide w; eqMaps<sja,sja,WN,WM>(); } HARNESS(w_ord_mja){ Wide w; ordMap<mja,WN>(); } HARNESS(w_ord_mpe){ Wide w; ordMap<mpe,WN>(); } HARNESS(w_eq_mja_jro){ Wide w; eqMapSet<mja,jro,WN,WM>(); } HARNESS(w_eq_mpa_pro){ Wide w; eqMapSet<mpa,pro,WN,WM>(); }
#endif
