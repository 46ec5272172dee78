// Lookup: find, bounds, equal_range, operator()
#include "quant.hpp"
#ifdef THOROUGH
enum { NS=6, NP=5, ND=3 };
#else
enum { NS=5, NP=4, ND=2 };
#endif
template<class C,class J> inline int idx(C& c,J it){ int k=0; for(auto i=c.begin();i!=c.end();++i,++k) if(i==it) return k; return it==c.end()? k : -1; }
template<class G,class F> inline int firstIdx(const G& g,F f){ int r=g.n; for(int i=g.n-1;i>=0;i--) r=f(g.r(i))?i:r; return r; }
template<class I,class C,class G> void findBody(C& c,const G& g){ typedef IT<I> X; typedef typename X::D D; const C& k=c; 
  switch((int)sx_choose(2)){ case 0: { auto o=D::sym("key"); typename X::dom key=D::from(o); auto q=D::before(o); int e=firstIdx(g,[&](auto r){ return has(r,q); }); int a=idx(k,k.find(key)), b=idx(k,icl::find(k,key)); sx_observe(a); sx_check((a==e)&(b==e),"find(key) returns the segment containing the key"); break; }
   default: { auto s=symNE<I>("arg"); I a=X::mk(s); auto r=X::rng(s); int f=firstIdx(g,[&](auto t){ return overlap(t,r); }), l=firstIdx(g,[&](auto t){ return lt(r.s,t.e); }), u=firstIdx(g,[&](auto t){ return le(r.e,t.s); });
     switch((int)sx_choose(3)){ case 0: { int x=idx(k,k.find(a)), y=idx(k,icl::find(k,a)); sx_observe(x); sx_check((x==f)&(y==f),"find(interval) returns the first overlapping segment"); break; }
      case 1: { int x=idx(c,c.lower_bound(a)), y=idx(k,k.lower_bound(a)); sx_check((x==l)&(y==l),"lower_bound"); x=idx(c,c.upper_bound(a)); y=idx(k,k.upper_bound(a)); sx_check((x==u)&(y==u),"upper_bound"); break; }
      default: { auto p=c.equal_range(a); auto q=k.equal_range(a); int x=idx(c,p.first), y=idx(c,p.second), v=idx(k,q.first), w=idx(k,q.second); sx_check((x==l)&(v==l)&(y==u)&(w==u),"equal_range delimits the overlapping segments"); } } } } }
template<class C,int N> void findSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); findBody<I>(c,g); sameSegs(c,g,"looking leaves the container unchanged"); }
template<class T,int N> void findMap(){ typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); findBody<typename T::I>(c,g); sameM<T,N>(c,g,"looking leaves the container unchanged"); }
template<class T,int N> void readMap(){ typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); auto o=T::D::sym("key"); typename T::C::domain_type k=T::D::from(o); const typename T::C& d=c; auto v=d(k); sx_observe(vob(v)); sx_check(veq(v,g.at(T::D::before(o)).v),"reading the map yields the stored value or the neutral value"); sameM<T,N>(c,g,"reading leaves the container unchanged"); }
template<class C,int N> void findBig(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); auto o=IT<I>::D::sym("key"); sx_assume((o<=-1e16)|(o>=1e16)); auto q=IT<I>::D::before(o); const C& k=c; int e=firstIdx(g,[&](auto r){ return has(r,q); }); int a=idx(k,k.find(o)); sx_check(a==e,"find(key) returns the segment containing the key"); }
template<class C,int N> void findSmall(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); auto o=IT<I>::D::sym("key"); sx_assume((o>=-1e15)&(o<=1e15)); auto q=IT<I>::D::before(o); const C& k=c; int e=firstIdx(g,[&](auto r){ return has(r,q); }); int a=idx(k,k.find(o)); sx_check(a==e,"find(key) returns the segment containing the key"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,LO<int>> slo; typedef Ps<int,CL<int>> pcl; typedef Js<int,OP<int>> jop; typedef Ps<int,RO<int>> pro; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Ss<int,DI<int>> sdi; typedef Js<double,CI<double>> jci; typedef Ps<double,CI<double>> pci; typedef Js<unsigned,RO<unsigned>> jru; typedef Ps<short,DI<short>> psh; typedef Ss<unsigned char,CL<unsigned char>> suc; typedef Js<long,RO<long>> jrl; typedef Js<double,RO<double>> jrd; typedef Js<double,LO<double>> jld;
typedef icl::interval_set<int,std::greater,icl::right_open_interval<int,std::greater>> jgr; typedef icl::split_interval_set<int,std::greater,icl::discrete_interval<int,std::greater>> pgd;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,RO<int>> mje; typedef JM<KPlus,TE,DI<int>> mjte; typedef JM<KPlus,TA,RO<int>> mjta; typedef PM<KPlus,PA,CL<int>> mpa; typedef PM<KPlus,PE,DI<int>> mpe; typedef JM<KPlus,PE,CI<double>> mci; typedef PM<KSet,PA,LO<int>> mps;
#define S(C,N) HARNESS(find_##C){ findSet<C,N>(); }
#define M(T,N) HARNESS(find_##T){ findMap<T,N>(); } HARNESS(read_##T){ readMap<T,N>(); }
#if SHARD==1
S(jro,NS) S(slo,NS) S(pcl,NS) S(jop,NS) S(pro,NS) S(jdi,ND) S(pdi,ND) S(sdi,ND) S(jci,ND) S(pci,ND)
#elif SHARD==2
S(jru,NP) S(psh,ND) S(suc,NP) S(jrl,NP) S(jgr,NP) S(pgd,ND) HARNESS(find_jrd){ findSmall<jrd,2>(); } HARNESS(find_jld){ findSmall<jld,2>(); }
#elif SHARD==3
M(mja,NP) M(mje,NP) M(mjte,ND) M(mjta,NP) M(mpa,NP) M(mpe,ND) M(mci,ND) M(mps,NP)
#elif SHARD==4
HARNESS(findbig_jrd){ findBig<jrd,1>(); } HARNESS(findbig_jld){ findBig<jld,1>(); }
#elif SHARD==5   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=6, WM=7 };
#endif
HARNESS(w_find_jro){ Wide w; findSet<jro,WN>(); } HARNESS(w_find_pcl){ Wide w; findSet<pcl,WN>(); } HARNESS(w_find_jdi){ Wide w; findSet<jdi,WN>(); } HARNESS(w_find_mja){ Wide w; findMap<mja,WN>(); } HARNESS(w_find_mpa){ Wide w; findMap<mpa,WN>(); } HARNESS(w_read_mja){ Wide w; readMap<mja,WN>(); } HARNESS(w_read_mpa){ Wide w; readMap<mpa,WN>(); }
#endif
