// Element and segment iteration
#include "quant.hpp"
#include <utility>
#ifdef THOROUGH
enum { NS=3, NP=2, ND=2, L=4 };
#else
enum { NS=2, NP=2, ND=1, L=3 };
#endif
template<class I> struct Ord { typedef typename IT<I>::D D; static typename D::pos p(typename IT<I>::dom x){ return D::before(D::to(x)); } };
template<class I,class G> inline int limit(const G& g){ typename IT<I>::P t=0; for(int i=0;i<g.n;i++){ auto w=g.r(i).e-g.r(i).s; sx_assume(w<=(Wide::on()?8:L)); t+=w; } return (int)t; }
// walks with IT from b to e; key/value access through K and V
template<class I,class It,class G,class FK,class FV> void walk(It b,It e,const G& g,int total,bool up,FK key,FV val,const char* m1,const char* m2,const char* m3){ bool asc=true, mem=true, vals=true; int k=0; typename IT<I>::P prev=0; for(It i=b;!(i==e)&&k<=(Wide::on()?40:NS*L);++k){ auto p=Ord<I>::p(key(*i)); if(k) asc&= up? prev<p : p<prev; bool in=false; for(int j=0;j<g.n;j++){ bool h=has(g.r(j),p); in|=h; vals&=!h|val(*i,j); } mem&=in; prev=p; if(k&1) ++i; else i++; } sx_observe(k); sx_check(asc,m1); sx_check(mem&vals,m2); sx_check(k==total,m3); }
#define UP "elements are visited in ascending order","only elements of the container (with their values) are visited","every element is visited exactly once"
#define DN "elements are visited in descending order","only elements of the container (with their values) are visited (reverse)","every element is visited exactly once (reverse)"
// the same positions backwards, by decrementing from the end, and zigzag
template<class I,class It,class G,class FK,class FV> void back(It b,It e,const G& g,int total,FK key,FV val){ bool desc=true, mem=true, zig=true; int k=0; typename IT<I>::P prev=0; for(It i=e;!(i==b)&&k<=(Wide::on()?40:NS*L);++k){ --i; auto p=Ord<I>::p(key(*i)); if(k){ desc&=p<prev; It j=i; ++j; zig&=Ord<I>::p(key(*j))==prev; --j; zig&= j==i; } bool in=false; for(int j=0;j<g.n;j++){ bool h=has(g.r(j),p); in|=h; mem&=!h|val(*i,j); } mem&=in; prev=p; } sx_check(desc,"decrementing visits elements in descending order"); sx_check(mem,"decrementing visits only elements of the container"); sx_check(zig,"incrementing undoes decrementing"); sx_check(k==total,"decrementing visits every element exactly once"); }
template<class I,class C,class G,class FK,class FV> void elems(C& c,const G& g,FK key,FV val){ const C& k=c; int t=limit<I>(g);
  switch((int)sx_choose(8)){ case 0: walk<I>(icl::elements_begin(c),icl::elements_end(c),g,t,true,key,val,UP); break; case 1: walk<I>(icl::elements_begin(k),icl::elements_end(k),g,t,true,key,val,UP); break; case 2: walk<I>(icl::elements_rbegin(c),icl::elements_rend(c),g,t,false,key,val,DN); break; case 3: walk<I>(icl::elements_rbegin(k),icl::elements_rend(k),g,t,false,key,val,DN); break;
   case 4: { auto r=icl::elements(c); walk<I>(r.begin(),r.end(),g,t,true,key,val,UP); break; } case 5: { auto r=icl::elements(k); walk<I>(r.begin(),r.end(),g,t,true,key,val,UP); break; }
   case 6: back<I>(icl::elements_begin(c),icl::elements_end(c),g,t,key,val); break; default: back<I>(icl::elements_begin(k),icl::elements_end(k),g,t,key,val); } }
template<class C,int N> void elemSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); elems<I>(c,g,[](auto x){ return x; },[](auto,int){ return true; }); sameSegs(c,g,"iterating leaves the container unchanged"); }
template<class T,int N> void elemMap(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); elems<I>(c,g,[](auto x){ return x.first; },[&](auto x,int j){ return veq(x.second,g.v[j]); }); sameM<T,N>(c,g,"iterating leaves the container unchanged"); }
// segment iterators
template<class C,int N> void segSet(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); const C& k=c; int n=g.n; bool ok=true; auto same=[&](const I& x,int j){ auto a=rngOf(x), b=g.r(j); return eq(a.s,b.s)&eq(a.e,b.e); }; int q=0; for(auto i=k.begin();i!=k.end();++i,++q) ok&=q<n&&same(*i,q); ok&=q==n; q=0; for(auto i=c.begin();i!=c.end();++i,++q) ok&=q<n&&same(*i,q); ok&=q==n; q=n; for(auto i=k.rbegin();i!=k.rend();++i) { --q; ok&=q>=0&&same(*i,q); } ok&=q==0; q=n; for(auto i=c.rbegin();i!=c.rend();++i) { --q; ok&=q>=0&&same(*i,q); } ok&=q==0; sx_check(ok,"segment iteration visits every segment in order"); }
template<class T,int N> void segMap(){ typedef typename T::I I; typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); const typename T::C& k=c; int n=g.n; bool ok=true; auto same=[&](const auto& x,int j){ auto a=rngOf(x.first), b=g.r(j); return eq(a.s,b.s)&eq(a.e,b.e)&veq(x.second,g.v[j]); }; int q=0; for(auto i=k.begin();i!=k.end();++i,++q) ok&=q<n&&same(*i,q); ok&=q==n; q=0; for(auto i=c.begin();i!=c.end();++i,++q) ok&=q<n&&same(*i,q); ok&=q==n; q=n; for(auto i=k.rbegin();i!=k.rend();++i) { --q; ok&=q>=0&&same(*i,q); } ok&=q==0; q=n; for(auto i=c.rbegin();i!=c.rend();++i) { --q; ok&=q>=0&&same(*i,q); } ok&=q==0; sx_check(ok,"segment iteration visits every segment in order"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
typedef Js<int,RO<int>> jro; typedef Ss<int,LO<int>> slo; typedef Ps<int,CL<int>> pcl; typedef Js<int,OP<int>> jop; typedef Ps<int,RO<int>> pro; typedef Js<int,DI<int>> jdi; typedef Ps<int,DI<int>> pdi; typedef Js<double,CI<double>> jci; typedef Js<unsigned,RO<unsigned>> jru; typedef Ps<short,DI<short>> psh; typedef Ss<unsigned char,CL<unsigned char>> suc; typedef Js<long,RO<long>> jrl;
typedef icl::interval_set<int,std::greater,icl::right_open_interval<int,std::greater>> jgr; typedef icl::split_interval_set<int,std::greater,icl::discrete_interval<int,std::greater>> pgd; typedef icl::separate_interval_set<int,std::greater,icl::closed_interval<int,std::greater>> sgc;
typedef JM<KPlus,PA,RO<int>> mja; typedef JM<KPlus,PE,CL<int>> mje; typedef JM<KPlus,TE,DI<int>> mjte; typedef PM<KPlus,PA,LO<int>> mpa; typedef PM<KPlus,PE,DI<int>> mpe; typedef PM<KSet,PA,OP<int>> mps; typedef JM<KPlus,PE,CI<double>> mci;
#define S(C,N) HARNESS(el_##C){ elemSet<C,N>(); }
#define M(T,N) HARNESS(el_##T){ elemMap<T,N>(); }
#if SHARD==1
S(jro,NS) S(slo,NS) S(pcl,NS) S(jop,NS) S(pro,NS) 
#elif SHARD==2
S(jru,NP) S(suc,NP) HARNESS(seg_jro){ segSet<jro,4>(); } HARNESS(seg_pdi){ segSet<pdi,2>(); } HARNESS(seg_jci){ segSet<jci,2>(); } HARNESS(seg_mja){ segMap<mja,3>(); } HARNESS(seg_mpe){ segMap<mpe,2>(); } HARNESS(seg_mci){ segMap<mci,2>(); }
#elif SHARD==3
M(mja,NP) M(mje,NP) M(mpa,NP) M(mps,NP)
#elif SHARD==4
S(jdi,ND) S(pdi,ND) S(psh,ND) M(mjte,ND) M(mpe,ND)
#elif SHARD==5
S(jgr,NP) S(pgd,ND) S(sgc,NP)
#elif SHARD==6   // wide
#ifdef THOROUGH
enum { WN=8, WM=8 };
#else
enum { WN=6, WM=7 };
#endif
HARNESS(w_el_jro){ Wide w; elemSet<jro,WN>(); } HARNESS(w_el_pcl){ Wide w; elemSet<pcl,WN>(); } HARNESS(w_el_mja){ Wide w; elemMap<mja,WN>(); } HARNESS(w_el_mpa){ Wide w; elemMap<mpa,WN>(); }
#endif
