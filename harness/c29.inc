// continuous domains with individually open or closed borders
#include "maps.hpp"
#ifdef THOROUGH
enum { NC=3, NM=2, ND=3, NB=2, HS=3 };
#else
enum { NC=2, NM=1, ND=3, NB=1, HS=2 };
#endif
enum { WW=W_CONTENT|W_STRUCT };
typedef Js<double,CI<double>> jci; typedef Ss<double,CI<double>> sci; typedef Ps<double,CI<double>> pci; typedef Js<double,RO<double>> jrd; typedef Ss<double,LO<double>> sld; typedef Ps<double,RO<double>> prd; typedef Js<double,LO<double>> jld; typedef Ps<double,LO<double>> pld;
typedef icl::interval_set<double,std::greater,icl::continuous_interval<double,std::greater>> jcg; typedef icl::split_interval_set<double,std::greater,icl::continuous_interval<double,std::greater>> pcg;
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef JM<KPlus,PA,CI<double>> ja; typedef JM<KPlus,PE,CI<double>> je; typedef JM<KPlus,TA,CI<double>> ta; typedef PM<KPlus,PA,CI<double>> pa; typedef PM<KPlus,PE,CI<double>> pe; typedef PM<KPlus,TE,CI<double>> te; typedef JM<KSet,PA,CI<double>> sa; typedef PM<KSet,PE,CI<double>> se; typedef JM<KPlus,PA,RO<double>> rd; typedef PM<KPlus,PE,LO<double>> ld;
// two operations in a row on an arbitrary set
template<SetOp O,class C> inline void one(C& c,int f,typename C::interval_type a){ applyMut<O>(c,a,0); }
template<class C,int N,int S> void hist(){ typedef typename C::interval_type I; auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); bool m=g.mem(x); for(int i=0;i<S;i++){ auto s=symSeg<I>("arg"); I a=IT<I>::mk(s); bool h=has(IT<I>::rng(s),x); switch((int)sx_choose(4)){ case 0: c.add(a); m=m|h; break; case 1: c.subtract(a); m=m&!h; break; case 2: c&=a; m=m&h; break; default: c.flip(a); m=m!=h; } } wellFormed(c); obsSet(c); sx_check(memAt(c,x)==m,"content after a history of operations"); }
#define S4(C,N) HARNESS(add_##C){ setSeg<C,OP_ADD,N,0,WW>(); } HARNESS(sub_##C){ setSeg<C,OP_SUB,N,0,WW>(); } HARNESS(and_##C){ setSeg<C,OP_AND,N,0,WW>(); } HARNESS(xor_##C){ setSeg<C,OP_XOR,N,0,WW>(); }
#define E4(C,N) HARNESS(adde_##C){ setElem<C,OP_ADD,N,0,WW>(); } HARNESS(sube_##C){ setElem<C,OP_SUB,N,0,WW>(); } HARNESS(ande_##C){ setElem<C,OP_AND,N,0,WW>(); } HARNESS(xore_##C){ setElem<C,OP_XOR,N,0,WW>(); }
#define B4(C,B,N,M) HARNESS(adds_##C##_##B){ setSet<C,B,OP_ADD,N,M,0,WW>(); } HARNESS(subs_##C##_##B){ setSet<C,B,OP_SUB,N,M,0,WW>(); } HARNESS(ands_##C##_##B){ setSet<C,B,OP_AND,N,M,0,WW>(); } HARNESS(xors_##C##_##B){ setSet<C,B,OP_XOR,N,M,0,WW>(); }
#define M7(T,N) HARNESS(madd_##T){ mapSeg<T,M_ADD,N,0,WW>(); } HARNESS(msub_##T){ mapSeg<T,M_SUB,N,0,WW>(); } HARNESS(mins_##T){ mapSeg<T,M_INS,N,0,WW>(); } HARNESS(mset_##T){ mapSeg<T,M_SET,N,0,WW>(); } HARNESS(merp_##T){ mapSeg<T,M_ERP,N,0,WW>(); } HARNESS(mand_##T){ mapSeg<T,M_AND,N,0,WW>(); } HARNESS(mxor_##T){ mapSeg<T,M_XOR,N,0,WW>(); } HARNESS(merk_##T){ mapSeg<T,M_ERK,N,0,WW>(); } HARNESS(mandk_##T){ mapSeg<T,M_ANDK,N,0,WW>(); }
#if SHARD==1
S4(jci,NC) S4(sci,NC) S4(pci,NC) S4(jrd,ND) S4(sld,ND) S4(prd,ND) S4(jld,ND) S4(pld,ND) S4(jcg,NC) S4(pcg,NC)
#elif SHARD==2
E4(jci,NC) E4(sci,NC) E4(pci,NC) B4(jci,jci,NC,1) B4(pci,jci,NC,1) B4(sci,pci,1,NB) B4(jci,pci,1,NC)
#elif SHARD==3
HARNESS(hist_jci){ hist<jci,1,2>(); } HARNESS(hist_sci){ hist<sci,1,2>(); } HARNESS(hist_pci){ hist<pci,1,2>(); } HARNESS(hist_jrd){ hist<jrd,1,HS>(); } HARNESS(hist_pld){ hist<pld,1,2>(); }
#elif SHARD==4
M7(ja,NC) M7(pe,NC)
#elif SHARD==5
M7(je,NM) M7(ta,NM) M7(pa,NM) M7(te,NM) M7(sa,NM) M7(se,NM) M7(rd,2) M7(ld,2)
#endif
