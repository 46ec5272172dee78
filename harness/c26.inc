// Whole-object behaviour: copies, moves, swaps, clearing, self operands, operands that live inside the target, histories; heap checked throughout
#include "elems.hpp"
#ifdef THOROUGH
enum { NS=4, NP=3, ND=2, NH=2, HS=3 };
#else
enum { NS=3, NP=2, ND=2, NH=1, HS=2 };
#endif
using namespace boost::icl;
// ---------------------------------------------------------------- interval sets
template<class C,int N> void selfS(){ typedef typename C::interval_type I; sx_noleak(); auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); const C& k=c; bool m=g.mem(x), e=m, same=false; switch((int)sx_choose(16)){
   case 0: c+=k; same=true; break; case 1: c|=k; same=true; break; case 2: icl::insert(c,k); same=true; break; case 3: c&=k; same=true; break; case 4: c-=k; e=false; break; case 5: icl::erase(c,k); e=false; break; case 6: c^=k; e=false; break; case 7: icl::flip(c,k); e=false; break;
   case 8: c=k; same=true; break; case 9: c.swap(c); same=true; break; case 10: { C d=c+c; sx_check(memAt(d,x)==m,"sum of a set with itself"); same=true; break; } case 11: { C d=c-c; sx_check(d.empty(),"difference of a set with itself"); same=true; break; } case 12: { C d=c^c; sx_check(d.empty(),"symmetric difference of a set with itself"); same=true; break; } case 13: { C d=c&c; sx_check(memAt(d,x)==m,"intersection of a set with itself"); same=true; break; }
   case 14: { C d; icl::add_intersection(d,c,c); sx_check(memAt(d,x)==m,"intersection of a set with itself"); same=true; break; } default: sx_check(icl::contains(c,c)&icl::within(c,c)&(icl::intersects(c,c)==(g.n>0))&(icl::disjoint(c,c)==(g.n==0))&icl::is_element_equal(c,c)&(c==c)&!(c<c),"relations of a set to itself"); same=true; }
  wellFormed(c); obsSet(c); sx_check(memAt(c,x)==e,"content after an operation with itself as operand"); if(same) sameSegs(c,g,"segments after an operation with itself as operand"); if(!same) sx_check(c.empty(),"nothing remains"); }
// the operand is a segment stored in the set
template<class C,int N> void innerS(){ typedef typename C::interval_type I; sx_noleak(); auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); if(!g.n) return; C c; fill(c,g); int j=(int)sx_choose(g.n); auto it=c.begin(); for(int i=0;i<j;i++) ++it; const I& a=*it; bool m=g.mem(x), h=has(g.r(j),x), e=m; switch((int)sx_choose(12)){
   case 0: c.add(a); break; case 1: c+=a; break; case 2: icl::insert(c,a); break; case 3: c.add(it,a); break; case 4: c.subtract(a); e=m&!h; break; case 5: c.erase(a); e=m&!h; break; case 6: c-=a; e=m&!h; break; case 7: icl::erase(c,a); e=m&!h; break; case 8: c&=a; e=m&h; break; case 9: c.flip(a); e=m&!h; break; case 10: c^=a; e=m&!h; break; default: c.erase(it); e=m&!h; }
  wellFormed(c); obsSet(c); sx_check(memAt(c,x)==e,"content after an operation with one of its own segments"); }
template<class C,int N,int M> void copyS(){ typedef typename C::interval_type I; sx_noleak(); auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); Segs<I,M> h; symSegs<C,M>(h,"old"); auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); bool in=has(IT<I>::rng(s),x); { C c; fill(c,g); switch((int)sx_choose(9)){
   case 0: { C d(c); d.add(a); sameSegs(c,g,"a copy is independent of its source"); sx_check(memAt(d,x)==(g.mem(x)|in),"the copy has the content"); break; }
   case 1: { C d; fill(d,h); d=c; c.subtract(a); sameSegs(d,g,"the assigned copy is independent of its source"); sx_check(memAt(c,x)==(g.mem(x)&!in),"the source changes alone"); break; }
   case 2: { C d(std::move(c)); sameSegs(d,g,"moving transfers the content"); c.clear(); c.add(a); sameSegs(d,g,"a moved from container is independent"); sx_check(memAt(c,x)==in,"a moved from container can be reused"); break; }
   case 3: { C d; fill(d,h); d=std::move(c); sameSegs(d,g,"move assignment transfers the content"); c.clear(); c.add(a); sameSegs(d,g,"a moved from container is independent"); sx_check(memAt(c,x)==in,"a moved from container can be reused"); break; }
   case 4: { C d; fill(d,h); c.swap(d); sameSegs(d,g,"swap"); sameSegs(c,h,"swap"); c.add(a); sameSegs(d,g,"swapped containers are independent"); break; }
   case 5: { C d; fill(d,h); icl::swap(c,d); sameSegs(d,g,"swap"); sameSegs(c,h,"swap"); d.subtract(a); sameSegs(c,h,"swapped containers are independent"); break; }
   case 6: { C d(c); c.clear(); sx_check(c.empty()&icl::is_empty(c)&(c.begin()==c.end()),"clearing empties"); sameSegs(d,g,"clearing leaves copies alone"); c.add(a); sx_check(memAt(c,x)==in,"a cleared container can be reused"); break; }
   case 7: { icl::clear(c); sx_check(c.empty()&(c.begin()==c.end()),"clearing empties"); c.add(a); sx_check(memAt(c,x)==in,"a cleared container can be reused"); break; }
   default: { C d=c+a; sameSegs(c,g,"operators returning a new container leave the operand alone"); C e=c-a; sameSegs(c,g,"operators returning a new container leave the operand alone"); C f=c&a; C q=c^a; sameSegs(c,g,"operators returning a new container leave the operand alone"); sx_check((memAt(d,x)==(g.mem(x)|in))&(memAt(e,x)==(g.mem(x)&!in))&(memAt(f,x)==(g.mem(x)&in))&(memAt(q,x)==(g.mem(x)!=in)),"new containers"); } } } }
// S operations in a row
template<class C,int N,int S> void histS(){ typedef typename C::interval_type I; sx_noleak(); auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); bool m=g.mem(x); C c; fill(c,g); for(int i=0;i<S;i++){ auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); bool h=has(IT<I>::rng(s),x); switch((int)sx_choose(8)){ case 0: c.add(a); m|=h; break; case 1: c.subtract(a); m&=!h; break; case 2: c&=a; m&=h; break; case 3: c.flip(a); m=m!=h; break; case 4: { C d; d.add(a); icl::flip(d,c); c.swap(d); m=m!=h; break; } case 5: { C d(a); c+=d; m|=h; break; } case 6: { C d(c); c.clear(); c+=d-a; m&=!h; break; } default: { C d(a); d^=c; c=d; m=m!=h; } } }
  wellFormed(c); obsSet(c); sx_check(memAt(c,x)==m,"content after a history of operations"); }
// ---------------------------------------------------------------- interval maps
template<class T,int N> void selfM(){ typedef typename T::I I; typedef typename T::C C; typedef typename T::V V; sx_noleak(); auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"pre"); C c; fillM<T,N>(c,g); const C& k=c; auto m=g.at(x), e=m; MV<V> none=mv<V>(false,T::K::id()); bool same=false; auto ex=[&](auto o){ return expectM<T,decltype(o)::value>(m,m.d,m.v); }; typedef MapOp MO;
  switch((int)sx_choose(14)){ case 0: c+=k; e=ex(std::integral_constant<MO,M_ADD>()); break; case 1: c|=k; e=ex(std::integral_constant<MO,M_ADD>()); break; case 2: icl::insert(c,k); same=true; break; case 3: c-=k; e=ex(std::integral_constant<MO,M_SUB>()); break; case 4: icl::erase(c,k); e=none; break; case 5: c&=k; e=ex(std::integral_constant<MO,M_AND>()); break; case 6: c^=k; e=ex(std::integral_constant<MO,M_XOR>()); break; case 7: icl::flip(c,k); e=ex(std::integral_constant<MO,M_XOR>()); break;
   case 8: c=k; same=true; break; case 9: c.swap(c); same=true; break; case 10: { C d=c+c; sx_check(mveq(atM<T>(d,x),ex(std::integral_constant<MO,M_ADD>())),"sum of a map with itself"); same=true; break; } case 11: { C d=c-c; sx_check(mveq(atM<T>(d,x),ex(std::integral_constant<MO,M_SUB>())),"difference of a map with itself"); same=true; break; } case 12: { C d=c&c; sx_check(mveq(atM<T>(d,x),ex(std::integral_constant<MO,M_AND>())),"intersection of a map with itself"); same=true; break; }
   default: sx_check(icl::contains(c,c)&icl::within(c,c)&icl::is_element_equal(c,c)&(c==c)&!(c<c)&icl::is_distinct_equal(c,c),"relations of a map to itself"); same=true; }
  wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),e),"value after an operation with itself as operand"); if(same) sameM<T,N>(c,g,"segments after an operation with itself as operand"); }
template<class T,int N> void innerM(){ typedef typename T::I I; typedef typename T::C C; typedef typename T::Sg Sg; sx_noleak(); auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"pre"); if(!g.n) return; C c; fillM<T,N>(c,g); int j=(int)sx_choose(g.n); auto it=c.begin(); for(int i=0;i<j;i++) ++it; const I& a=(*it).first; auto m=g.at(x), e=m; bool h=has(g.r(j),x); auto v=g.v[j]; bool st=true; (void)st; 
#define SX_EX(O) expectM<T,O>(m,h,v)
  switch((int)sx_choose(12)){ case 0: c.erase(a); e=SX_EX(M_ERK); break; case 1: c-=a; e=SX_EX(M_ERK); break; case 2: icl::erase(c,a); e=SX_EX(M_ERK); break; case 3: c&=a; e=SX_EX(M_ANDK); break; case 4: c.erase(it); e=SX_EX(M_ERK); break; case 5: c.erase(Sg(*it)); e=SX_EX(M_ERP); break; case 6: c.erase(*it); e=SX_EX(M_ERP); break; case 7: c.add(*it); e=SX_EX(M_ADD); break; case 8: c+=*it; e=SX_EX(M_ADD); break; case 9: c.subtract(*it); e=SX_EX(M_SUB); break; case 10: c.set(*it); break; default: c.insert(*it); }
  wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),e),"value after an operation with one of its own segments"); }
template<class T,int N,int M> void copyM(){ typedef typename T::I I; typedef typename T::C C; typedef typename T::V V; sx_noleak(); auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"pre"); MSegs<T,M> h; symM<T,M>(h,"old"); auto s=symSeg<I>("arg"); auto v=T::K::sym("argvalue"); typename T::Sg a(IT<I>::mk(s),v); auto r=IT<I>::rng(s); bool in=has(r,x); auto m=g.at(x); MV<V> none=mv<V>(false,T::K::id()); auto fresh=expectM<T,M_ADD>(none,in,v); { C c; fillM<T,N>(c,g); switch((int)sx_choose(9)){
   case 0: { C d(c); d.add(a); sameM<T,N>(c,g,"a copy is independent of its source"); sx_check(mveq(atM<T>(d,x),expectM<T,M_ADD>(m,in,v)),"the copy has the content"); break; }
   case 1: { C d; fillM<T,M>(d,h); d=c; c.erase(a.first); sameM<T,N>(d,g,"the assigned copy is independent of its source"); sx_check(mveq(atM<T>(c,x),expectM<T,M_ERK>(m,in,v)),"the source changes alone"); break; }
   case 2: { C d(std::move(c)); sameM<T,N>(d,g,"moving transfers the content"); c.clear(); c.add(a); sameM<T,N>(d,g,"a moved from container is independent"); sx_check(mveq(atM<T>(c,x),fresh),"a moved from container can be reused"); break; }
   case 3: { C d; fillM<T,M>(d,h); d=std::move(c); sameM<T,N>(d,g,"move assignment transfers the content"); c.clear(); c.add(a); sameM<T,N>(d,g,"a moved from container is independent"); sx_check(mveq(atM<T>(c,x),fresh),"a moved from container can be reused"); break; }
   case 4: { C d; fillM<T,M>(d,h); c.swap(d); sameM<T,N>(d,g,"swap"); sameM<T,M>(c,h,"swap"); c.add(a); sameM<T,N>(d,g,"swapped containers are independent"); break; }
   case 5: { C d; fillM<T,M>(d,h); icl::swap(c,d); sameM<T,N>(d,g,"swap"); sameM<T,M>(c,h,"swap"); d.erase(a.first); sameM<T,M>(c,h,"swapped containers are independent"); break; }
   case 6: { C d(c); c.clear(); sx_check(c.empty()&icl::is_empty(c)&(c.begin()==c.end()),"clearing empties"); sameM<T,N>(d,g,"clearing leaves copies alone"); c.add(a); sx_check(mveq(atM<T>(c,x),fresh),"a cleared container can be reused"); break; }
   case 7: { icl::clear(c); sx_check(c.empty()&(c.begin()==c.end()),"clearing empties"); c.insert(a); sx_check(mveq(atM<T>(c,x),fresh),"a cleared container can be reused"); break; }
   default: { C d=c+a; C e=c-a; sameM<T,N>(c,g,"operators returning a new container leave the operand alone"); C f=c&a; C q=c^a; C p=c-a.first; C o=c&a.first; sameM<T,N>(c,g,"operators returning a new container leave the operand alone"); sx_check(mveq(atM<T>(d,x),expectM<T,M_ADD>(m,in,v))&mveq(atM<T>(e,x),expectM<T,M_SUB>(m,in,v))&mveq(atM<T>(f,x),expectM<T,M_AND>(m,in,v))&mveq(atM<T>(q,x),expectM<T,M_XOR>(m,in,v))&mveq(atM<T>(p,x),expectM<T,M_ERK>(m,in,v))&mveq(atM<T>(o,x),expectM<T,M_ANDK>(m,in,v)),"new containers"); } } } }
template<class T,int N,int S,int H=0> void histM(){ typedef typename T::I I; typedef typename T::C C; typedef typename T::V V; sx_noleak(); auto x=symPos<I>("x"); MSegs<T,N> g; symM<T,N>(g,"pre"); auto m=g.at(x); C c; fillM<T,N>(c,g); for(int i=0;i<S;i++){ auto s=symSeg<I>("arg"); bool in=has(IT<I>::rng(s),x); auto v=T::K::sym("argvalue"); typename T::Sg a(IT<I>::mk(s),v); switch(H&&!i?(int)sx_choose(4)+4*(H-1):(int)sx_choose(8)){ case 0: c.add(a); m=expectM<T,M_ADD>(m,in,v); break; case 1: c.subtract(a); m=expectM<T,M_SUB>(m,in,v); break; case 2: c&=a; m=expectM<T,M_AND>(m,in,v); break; case 3: c.flip(a); m=expectM<T,M_XOR>(m,in,v); break; case 4: c.insert(a); m=expectM<T,M_INS>(m,in,v); break; case 5: c.set(a); m=expectM<T,M_SET>(m,in,v); break; case 6: c.erase(a); m=expectM<T,M_ERP>(m,in,v); break; default: c.erase(a.first); m=expectM<T,M_ERK>(m,in,v); } }
  wellM<T>(c); obsM<T>(c); sx_check(mveq(atM<T>(c,x),m),"value after a history of operations"); }
// ---------------------------------------------------------------- element sets and maps
template<class C,int N> void selfE(){ typedef typename C::key_type D; sx_noleak(); D x=Dom<D>::sym("x"); Keys<D,N> g; symKeys<C>(g,"pre"); C c; fillK(c,g); const C& k=c; bool e=g.mem(x); switch((int)sx_choose(9)){ case 0: c+=k; break; case 1: c|=k; break; case 2: icl::insert(c,k); break; case 3: c&=k; break; case 4: c-=k; e=false; break; case 5: icl::erase(c,k); e=false; break; case 6: c^=k; e=false; break; case 7: c=k; break; default: sx_check(icl::contains(c,c)&icl::within(c,c)&(icl::intersects(c,c)==(g.n>0))&icl::is_element_equal(c,c),"relations of a set to itself"); }
  obsK(c); sx_check(hasK(c,x)==e,"membership after an operation with itself as operand"); sx_check(c.size()==(uint64_t)(e||g.n==0?g.n:c.size()),"size"); }
template<class T,int N> void selfEM(){ typedef typename T::C C; typedef typename T::D D; typedef typename T::V V; sx_noleak(); D x=Dom<D>::sym("x"); EM<T,N> g; symE<T,N>(g,"pre"); C c; fillE<T,N>(c,g); const C& k=c; auto m=g.at(x), e=m; MV<V> none=mv<V>(false,T::K::id()); auto ex=[&](auto o){ return expectM<T,decltype(o)::value>(m,m.d,m.v); }; typedef MapOp MO; bool same=false;
  switch((int)sx_choose(9)){ case 0: c+=k; e=ex(std::integral_constant<MO,M_ADD>()); break; case 1: c|=k; e=ex(std::integral_constant<MO,M_ADD>()); break; case 2: icl::insert(c,k); same=true; break; case 3: c-=k; e=ex(std::integral_constant<MO,M_SUB>()); break; case 4: icl::erase(c,k); e=none; break; case 5: c&=k; e=ex(std::integral_constant<MO,M_AND>()); break; case 6: c^=k; e=ex(std::integral_constant<MO,M_XOR>()); break; case 7: c=k; same=true; break; default: sx_check(icl::contains(c,c)&icl::within(c,c)&icl::is_element_equal(c,c)&icl::is_distinct_equal(c,c),"relations of a map to itself"); same=true; }
  wellE<T>(c); sx_check(mveq(atE<T>(c,x),e),"value after an operation with itself as operand"); if(same) sameE<T,N>(c,g,"unchanged"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,LO<int>> slo; typedef Ps<int,RO<int>> pro; typedef Ps<int,CL<int>> pcl; typedef Js<int,DI<int>> jdi; typedef Ss<int,RO<int>> sro; typedef Js<double,CI<double>> jci;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TA,RO<int>> mjta; typedef JM<KPlus,TE,RO<int>> mjte; typedef PM<KPlus,PA,RO<int>> mpa; typedef PM<KPlus,PE,LO<int>> mpe; typedef PM<KPlus,TE,RO<int>> mpte; typedef JM<KSet,PA,RO<int>> sja; typedef PM<KSet,PE,CL<int>> spe; typedef JM<KApp,PE,RO<int>> aje; typedef JM<KMax,PE,RO<int>> xje; typedef JM<KPlus,PA,DI<int>> mdi; typedef PM<KPlus,PA,CI<double>> mci;
#define SA(C,N,M) HARNESS(self_##C){ selfS<C,N>(); } HARNESS(inner_##C){ innerS<C,N>(); } HARNESS(copy_##C){ copyS<C,M,1>(); }
#define MA(T,N,M) HARNESS(self_##T){ selfM<T,N>(); } HARNESS(inner_##T){ innerM<T,N>(); } HARNESS(copy_##T){ copyM<T,M,1>(); }
#if SHARD==1
SA(jro,NS,NP) SA(slo,NS,NP) SA(pro,NS,NP) SA(pcl,NS,NP) SA(jdi,ND,1) SA(jci,ND,1)
#elif SHARD==2
HARNESS(hist_jro){ histS<jro,NH,HS>(); } HARNESS(hist_slo){ histS<slo,1,HS>(); } HARNESS(hist_pro){ histS<pro,1,HS>(); }
#elif SHARD==3
MA(mja,NS,NP) MA(mje,NP,NP) MA(mjta,NP,1) MA(mjte,NP,1) MA(mpa,NS,NP) MA(mpe,NP,1) MA(mpte,NP,1)
#elif SHARD==4
MA(sja,NP,1) MA(spe,NP,1) MA(aje,NP,1) MA(xje,NP,1) MA(mdi,ND,1) MA(mci,ND,1)
#elif SHARD==5
HARNESS(hist1_mja){ histM<mja,1,2,1>(); } HARNESS(hist2_mja){ histM<mja,1,2,2>(); } HARNESS(hist_mpe){ histM<mpe,1,2>(); } HARNESS(hist_sja){ histM<sja,0,2>(); } HARNESS(hist_mje){ histM<mje,0,2>(); } HARNESS(hist_spe){ histM<spe,0,2>(); }
#ifdef THOROUGH
HARNESS(hist1_sja){ histM<sja,1,2,1>(); } HARNESS(hist2_sja){ histM<sja,1,2,2>(); } HARNESS(hist3_mja){ histM<mja,0,3>(); } HARNESS(hist3_mpe){ histM<mpe,0,3>(); }
#endif
#elif SHARD==6
HARNESS(self_set){ selfE<std::set<int>,NS>(); } HARNESS(self_gset){ selfE<std::set<int,std::greater<int>>,NS>(); }
#define EMS(nm,K,Tr) typedef ET<K,Tr,int> nm; HARNESS(self_##nm){ selfEM<nm,NP>(); }
EMS(ea,KPlus,PA) EMS(ee,KPlus,PE) EMS(eta,KPlus,TA) EMS(ete,KPlus,TE) EMS(es,KSet,PA) EMS(ex,KMax,PE)
#endif
