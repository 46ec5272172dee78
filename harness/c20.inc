// Sizes, hull and extreme values of containers
#include "quant.hpp"
#ifdef THOROUGH
enum { NS=5, NP=4, ND=3 };
#else
enum { NS=4, NP=3, ND=2 };
#endif
#define CHK(ty,e,exp,msg) { auto w=(exp); auto r=(e); sx_check((ty)r==(ty)w,msg); }
template<class I,class C,class G> void szBody(const C& c,const G& g){ typedef IT<I> X; typedef typename X::D D; typedef typename X::dom dom; int n=g.n;
  sx_check((icl::iterative_size(c)==(std::size_t)n)&(c.iterative_size()==(std::size_t)n)&(icl::interval_count(c)==(std::size_t)n),"number of segments"); sx_check((icl::is_empty(c)==(n==0))&(c.empty()==(n==0)),"emptiness");
  if constexpr (D::discrete){ typedef typename D::pos W; W w=0; for(int i=0;i<n;i++){ sx_assume(g.r(i).e-g.r(i).s<=(W)1000000000); w+=g.r(i).e-g.r(i).s; } W lim=2147483000; if(sizeof(dom)<4) lim=(W)std::numeric_limits<dom>::max(); 
    switch((int)sx_choose(4)){ case 3: { W gap=0; if(n) sx_assume(g.r(n-1).e-g.r(0).s<=lim); for(int i=1;i<n;i++) gap+=g.r(i).s-g.r(i-1).e; sx_check((W)icl::distance(c)==gap,"distance is the number of elements in the gaps"); break; } case 0: { auto r=icl::cardinality(c); sx_observe(r); sx_check((W)r==w,"cardinality is the number of elements"); break; } case 1: sx_check(((W)icl::size(c)==w)&((W)c.size()==w),"size is the number of elements"); break; default: sx_assume(w<=lim); sx_check((W)icl::length(c)==w,"length is the number of elements"); } 
    if(n){ bool dn=D::to((dom)1)<0; auto f=icl::first(c), l=icl::last(c); sx_observe((uint64_t)f); sx_check(D::before(D::to(f))==g.r(0).s,"first is the first element"); sx_check(D::after(D::to(l))==g.r(n-1).e,"last is the last element"); (void)dn; } }
  else { std::size_t k=0; bool inf=false; for(int i=0;i<n;i++){ bool one=g.r(i).s.v==g.r(i).e.v; inf|=!one; k+=one; } auto r=icl::cardinality(c); sx_observe(r); sx_check(r==(inf?icl::infinity<std::size_t>::value():k),"cardinality is the number of points or infinity"); sx_check((icl::size(c)==r)&(c.size()==r),"size is the cardinality"); }
  auto h=icl::hull(c); auto rh=rngOf(h); if(n){ sx_check(eq(rh.s,g.r(0).s)&eq(rh.e,g.r(n-1).e),"hull spans from the first to the last segment"); sx_check((D::to(icl::lower(c))==g.s[0].lo)&(D::to(icl::upper(c))==g.s[n-1].up),"lower and upper bound"); } else sx_check(!nonempty(rh),"hull of an empty container is empty"); }
template<class C,int N> void szSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); szBody<I>(c,g); sameSegs(c,g,"asking leaves the container unchanged"); }
template<class T,int N> void szMap(){ typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); szBody<typename T::I>(c,g); sameM<T,N>(c,g,"asking leaves the container unchanged"); }
// length of a continuous container: exact when the sums are exact (borders are small integers)
template<class C,int N> void lenSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); double w=0; for(int i=0;i<g.n;i++) w+=g.s[i].up-g.s[i].lo; double l=icl::length(c); sx_check(l==w,"length is the sum of the segment lengths"); double gap=0; for(int i=1;i<g.n;i++) gap+=g.s[i].lo-g.s[i-1].up; double di=icl::distance(c); sx_check(di==gap,"distance is the sum of the gap widths"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,LO<int>> slo; typedef Ps<int,CL<int>> pcl; typedef Js<int,OP<int>> jop; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Ss<int,DI<int>> sdi; typedef Js<double,CI<double>> jci; typedef Ps<double,CI<double>> pci; typedef Js<unsigned,RO<unsigned>> jru; typedef Ps<short,DI<short>> psh; typedef Ss<unsigned char,CL<unsigned char>> suc; typedef Js<long,RO<long>> jrl; typedef Js<double,RO<double>> jrd;
typedef icl::interval_set<int,std::greater,icl::right_open_interval<int,std::greater>> jgr; typedef icl::split_interval_set<int,std::greater,icl::discrete_interval<int,std::greater>> pgd;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TE,DI<int>> mjte; typedef PM<KPlus,PA,CL<int>> mpa; typedef PM<KPlus,PE,DI<int>> mpe; typedef JM<KPlus,PE,CI<double>> mci; typedef PM<KSet,PA,LO<int>> mps;
#define S(C,N) HARNESS(sz_##C){ szSet<C,N>(); }
#define M(T,N) HARNESS(sz_##T){ szMap<T,N>(); }
#if SHARD==1
S(jro,NS) S(slo,NS) S(pcl,NS) S(jop,NS) S(jdi,ND) S(pdi,ND) S(sdi,ND) S(jci,ND) S(pci,ND)
#elif SHARD==2
S(jru,NP) S(psh,ND) S(suc,NP) S(jrl,1) S(jrd,NP) S(jgr,NP) S(pgd,ND) HARNESS(len_jci){ lenSet<jci,2>(); } HARNESS(len_jrd){ lenSet<jrd,2>(); }
#elif SHARD==3
M(mja,NP) M(mje,NP) M(mjte,ND) M(mpa,NP) M(mpe,ND) M(mci,ND) M(mps,NP)
#elif SHARD==4   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=6, WM=7 };
#endif
HARNESS(w_sz_jro){ Wide w; szSet<jro,WN>(); } HARNESS(w_sz_pcl){ Wide w; szSet<pcl,WN>(); } HARNESS(w_sz_jdi){ Wide w; szSet<jdi,WN>(); } HARNESS(w_sz_mja){ Wide w; szMap<mja,WN>(); } HARNESS(w_sz_mpa){ Wide w; szMap<mpa,WN>(); }
#endif
