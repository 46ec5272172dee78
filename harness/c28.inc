// Calendar, clock and duration domains
#include "tick.hpp"
#include "c01.inc"
#include "c02.inc"
#undef OPS
#include "c03.inc"
#undef OPS
#ifdef THOROUGH
enum { NS=3, NM=2, ND=2 };
#else
enum { NS=2, NM=1, ND=1 };
#endif
enum { WW=W_CONTENT|W_STRUCT };
// stepping
template<class T> void step(){ typedef Dom<T> D; using namespace boost::icl; auto o=D::sym("tick"); T t=D::from(o); sx_check(D::to(t)==o,"tick count"); T u=t; ++u; sx_check(D::to(u)==o+1,"++ moves by one tick"); --u; sx_check(D::to(u)==o,"-- moves back"); --u; sx_check(D::to(u)==o-1,"-- moves by one tick"); sx_check((D::to(icl::succ(t))==o+1)&(D::to(icl::pred(t))==o-1),"succ and pred"); sx_check(D::to(t)==o,"succ and pred leave their argument"); sx_check((D::to(icl::successor<T,std::less<T>>::apply(t))==o+1)&(D::to(icl::predecessor<T,std::less<T>>::apply(t))==o-1)&(D::to(icl::successor<T,std::greater<T>>::apply(t))==o-1)&(D::to(icl::predecessor<T,std::greater<T>>::apply(t))==o+1),"successor and predecessor"); sx_observe((uint64_t)o); }
// counting
template<class I> void counts(){ typedef IT<I> X; typedef typename X::D D; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); bool na=nonempty(ra), nb=nonempty(rb); int64_t w=na?ra.e-ra.s:0; sx_assume(w<=2147483000);
  switch((int)sx_choose(4)){ case 0: sx_check(tickCount(icl::cardinality(a))==w,"cardinality counts the ticks"); break; case 1: sx_check(tickCount(icl::size(a))==w,"size counts the ticks"); break; case 2: sx_check(tickCount(icl::length(a))==w,"length counts the ticks"); break;
   default: { int64_t d=(na&nb)?(lt(ra.e,rb.s)?rb.s-ra.e:lt(rb.e,ra.s)?ra.s-rb.e:0):0; sx_assume(d<=2147483000); sx_check(tickCount(icl::distance(a,b))==d,"distance counts the ticks between"); } } sx_observe(na); }
template<class C,int N> void countS(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); int64_t w=0; for(int i=0;i<g.n;i++) w+=g.r(i).e-g.r(i).s; sx_assume(w<=2147483000); switch((int)sx_choose(3)){ case 0: sx_check((tickCount(icl::cardinality(c))==w)&(tickCount(icl::size(c))==w)&(tickCount(c.size())==w),"cardinality and size count the ticks"); break; case 1: sx_check(tickCount(icl::length(c))==w,"length counts the ticks"); break; default: if(g.n){ sx_check((IT<I>::D::before(IT<I>::D::to(icl::first(c)))==g.r(0).s)&(IT<I>::D::after(IT<I>::D::to(icl::last(c)))==g.r(g.n-1).e),"first and last tick"); auto h=rngOf(icl::hull(c)); sx_check(eq(h.s,g.r(0).s)&eq(h.e,g.r(g.n-1).e),"hull"); } } obsSet(c); }
// elements in ascending and descending order
template<class C,int N> void iterS(){ typedef typename C::interval_type I; typedef typename IT<I>::D D; typedef typename D::pos W; Segs<I,N> g; symSegs<C,N>(g,"pre"); for(int i=0;i<g.n;i++) sx_assume(g.r(i).e-g.r(i).s<=(W)3); C c; fill(c,g); W w=0; for(int i=0;i<g.n;i++) w+=g.r(i).e-g.r(i).s; int64_t k=0; bool ok=true; W last=0; 
  if(sx_choose(2)){ for(auto it=icl::elements_begin(c);it!=icl::elements_end(c);++it){ W p=D::before(D::to(*it)); ok&=g.mem(p); if(k) ok&=last<p; last=p; if(++k>12) break; } } else { for(auto it=icl::elements_rbegin(c);it!=icl::elements_rend(c);++it){ W p=D::before(D::to(*it)); ok&=g.mem(p); if(k) ok&=p<last; last=p; if(++k>12) break; } }
  sx_check(ok&(k==(int64_t)w),"every tick is visited once and in order"); obsSet(c); }
template<class C,int N> void lookS(){ typedef typename C::interval_type I; typedef typename IT<I>::D D; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); auto o=D::sym("key"); auto k=D::from(o); typename IT<I>::P p=D::before(o); bool m=g.mem(p); auto it=c.find(k); bool f=it!=c.end(); sx_check(f==m,"find"); if(f) sx_check(has(rngOf(*it),p),"find yields the segment of the key"); sx_check((icl::contains(c,k)==m)&(icl::intersects(c,k)==m)&(icl::disjoint(c,k)==!m),"contains"); auto s=symSeg<I>("arg"); auto r=IT<I>::rng(s); bool ov=false; for(int i=0;i<g.n;i++) ov|=overlap(g.r(i),r); sx_check(icl::intersects(c,IT<I>::mk(s))==ov,"intersects"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
#define IVS(n,I) HARNESS(basics_##n){ basics<I>(); } HARNESS(makers_##n){ makers<I>(); } HARNESS(inter_##n){ inter<I>(); } HARNESS(hull_##n){ hulls<I>(); } HARNESS(lsub_##n){ lsub<I>(); } HARNESS(rsub_##n){ rsub<I>(); } HARNESS(gap_##n){ gap<I,false>(); } HARNESS(rel_##n){ relations<I>(); } HARNESS(ord_##n){ orders<I>(); } HARNESS(brd_##n){ borders<I>(); }
#define IVD(n,I) IVS(n,I) HARNESS(count_##n){ counts<I>(); }
#define SETS(n,N) HARNESS(add_##n){ setSeg<n,OP_ADD,N,0,WW>(); } HARNESS(sub_##n){ setSeg<n,OP_SUB,N,0,WW>(); } HARNESS(and_##n){ setSeg<n,OP_AND,N,0,WW>(); } HARNESS(xor_##n){ setSeg<n,OP_XOR,N,0,WW>(); } HARNESS(addel_##n){ setElem<n,OP_ADD,N,0,WW>(); } HARNESS(subel_##n){ setElem<n,OP_SUB,N,0,WW>(); } HARNESS(xorel_##n){ setElem<n,OP_XOR,N,0,WW>(); } HARNESS(andel_##n){ setElem<n,OP_AND,N,0,WW>(); } HARNESS(adds_##n){ setSet<n,n,OP_ADD,N,1,0,WW>(); } HARNESS(ands_##n){ setSet<n,n,OP_AND,N,1,0,WW>(); } HARNESS(look_##n){ lookS<n,N>(); } 
#define SETD(n,N) SETS(n,N) HARNESS(count_##n){ countS<n,N>(); } HARNESS(iter_##n){ iterS<n,N>(); }
#define MAPS(n,N) HARNESS(madd_##n){ mapSeg<n,M_ADD,N,0,WW>(); } HARNESS(msub_##n){ mapSeg<n,M_SUB,N,0,WW>(); } HARNESS(mset_##n){ mapSeg<n,M_SET,N,0,WW>(); } HARNESS(mins_##n){ mapSeg<n,M_INS,N,0,WW>(); } HARNESS(mand_##n){ mapSeg<n,M_AND,N,0,WW>(); } HARNESS(merk_##n){ mapSeg<n,M_ERK,N,0,WW>(); } HARNESS(maddel_##n){ mapElem<n,M_ADD,N,0,WW>(); } HARNESS(merkel_##n){ mapElem<n,M_ERK,N,0,WW>(); }
#if SHARD==1
HARNESS(step_date){ step<DT_>(); } HARNESS(step_days){ step<DD>(); } HARNESS(step_time){ step<PT>(); } HARNESS(step_dur){ step<TD>(); } HARNESS(step_chrono){ step<CDi>(); } HARNESS(step_chronom){ step<CDm>(); }
IVD(dro,RO<DT_>) IVD(ddi,DI<DT_>) IVD(dcl,CL<DT_>) IVD(dop,OP<DT_>) IVD(dlo,LO<DT_>)
#elif SHARD==2
IVD(xro,RO<DD>) IVD(xdi,DI<DD>) IVD(tro,RO<TD>) IVD(tdi,DI<TD>) IVD(pro_,RO<PT>) IVD(pdi_,DI<PT>) IVD(pcl_,CL<PT>)
#elif SHARD==3
IVD(cro,RO<CDi>) IVD(cdi,DI<CDi>) IVD(mlo,LO<CDm>) IVS(krd,RO<TPd>) IVS(rd,RO<CDd>) IVS(cd,CI<CDd>) IVS(kd,CI<TPd>)
#elif SHARD==4
typedef Js<DT_,RO<DT_>> jdro; typedef Js<DT_,DI<DT_>> jddi; typedef Ps<DT_,CL<DT_>> pdcl; typedef Ss<DD,RO<DD>> sxro; typedef Ps<TD,RO<TD>> ptro; 
SETD(jdro,NS) SETD(jddi,ND) SETD(pdcl,NS) SETD(sxro,NS) SETD(ptro,ND) 
#elif SHARD==5
typedef Js<PT,RO<PT>> jpro; typedef Js<PT,DI<PT>> jpdi; typedef Js<CDi,RO<CDi>> jcro; typedef Ps<TPd,CI<TPd>> pkdi; typedef Js<CDd,CI<CDd>> jccd; typedef Ps<TPd,CI<TPd>> pkrd; 
SETD(jpro,NS) SETD(jpdi,ND) SETD(jcro,ND) SETS(pkdi,1) SETS(jccd,ND) SETS(pkrd,1) 
#elif SHARD==6
typedef JM<KPlus,PA,RO<DT_>> mdro; typedef PM<KPlus,PE,DI<DT_>> mddi; typedef PM<KPlus,PA,RO<PT>> mpro; typedef JM<KPlus,PE,RO<TD>> mtro; typedef JM<KSet,PA,CI<TPd>> mkro; typedef JM<KPlus,PA,CI<CDd>> mccd; 
MAPS(mdro,NM) MAPS(mddi,NM) MAPS(mpro,NM) MAPS(mtro,NM) MAPS(mkro,1) MAPS(mccd,NM) 
#endif
