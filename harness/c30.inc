// Streaming, through a recording stream
#include "rec.hpp"
#include "ivals.hpp"
#include "elems.hpp"
#ifdef THOROUGH
enum { NS=5, NM=4, ND=3, NK=6 };
#else
enum { NS=3, NM=3, ND=2, NK=4 };
#endif
inline bool same(const Rec& a,const Rec& b){ if(a.n!=b.n) return false; bool ok=true; for(int i=0;i<a.n&&i<Rec::Cap;i++){ if(a.t[i].num!=b.t[i].num) return false; ok&=a.t[i].v==b.t[i].v; } return ok; }
inline void obsRec(const Rec& r){ sx_observe((uint64_t)r.n); for(int i=0;i<r.n&&i<Rec::Cap;i++) sx_observe(r.t[i].v); }
inline Rec& operator<<(Rec& o,const BS& b){ return o<<b.b; }
inline void wantV(Rec& w,int v){ w<<v; } inline void wantV(Rec& w,unsigned v){ w<<v; } inline void wantV(Rec& w,BS v){ w<<v.b; }
// the expected text of a segment; its brackets show which borders belong to it
template<class I> inline void wantSeg(Rec& w,const typename IT<I>::S& s){ typedef typename IT<I>::D D; bool e=!nonempty(IT<I>::rng(s)); w.put((s.b&kLeft)?'[':'('); if(!e){ w<<D::from(s.lo); w.put(','); w<<D::from(s.up); } w.put((s.b&kRight)?']':')'); }
template<class I> void strIv(){ auto s=symSeg<I>("i"); I i=IT<I>::mk(s); Rec r,w; Rec* p=&(r<<i); wantSeg<I>(w,s); obsRec(r); sx_check(p==&r,"streaming returns the stream"); sx_check(same(r,w),"text of an interval"); r<<i; wantSeg<I>(w,s); sx_check(same(r,w),"streamed twice, written twice"); }
template<class C,int N> void strS(){ typedef typename C::interval_type I; Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); Rec r,w; Rec* p=&(r<<c); w.put('{'); for(int i=0;i<g.n;i++) wantSeg<I>(w,g.s[i]); w.put('}'); obsRec(r); sx_check(p==&r,"streaming returns the stream"); sx_check(r.numbers==2*g.n,"every segment is written once"); sx_check(same(r,w),"text of an interval set"); sameSegs(c,g,"streaming leaves the set unchanged"); }
template<class T,int N> void strM(){ typename T::C c; MSegs<T,N> g; symM<T,N>(g,"pre"); fillM<T,N>(c,g); Rec r,w; Rec* p=&(r<<c); w.put('{'); for(int i=0;i<g.n;i++){ w.put('('); wantSeg<typename T::I>(w,g.s[i]); w<<"->"; wantV(w,g.v[i]); w.put(')'); } w.put('}'); obsRec(r); sx_check(p==&r,"streaming returns the stream"); sx_check(r.numbers==3*g.n,"every segment is written once"); sx_check(same(r,w),"text of an interval map"); sameM<T,N>(c,g,"streaming leaves the map unchanged"); }
// a map whose values are interval sets
template<int N> void strNest(){ typedef icl::interval_set<int,std::less,RO<int>> V; typedef icl::split_interval_map<int,V,icl::partial_absorber,std::less,icl::inplace_plus,icl::inter_section,RO<int>> M; M m; Rec w; w.put('{'); int n=(int)sx_choose(N+1); IT<RO<int>>::S p; for(int i=0;i<n;i++){ auto s=symNE<RO<int>>("key"); if(i) sx_assume(okGap<RO<int>>(p,s,false)); p=s; auto v=symNE<RO<int>>("value"); auto k=IT<RO<int>>::mk(s); V x(IT<RO<int>>::mk(v)); m.add(std::make_pair(k,x)); w.put('('); wantSeg<RO<int>>(w,s); w<<"->{"; wantSeg<RO<int>>(w,v); w<<"})"; } w.put('}'); Rec r; r<<m; obsRec(r); sx_check(same(r,w),"text of a map of sets"); }
template<class C,int N> void strE(){ typedef typename C::key_type D; Keys<D,N> g; symKeys<C>(g,"key"); C c; fillK(c,g); Rec r,w; using namespace boost::icl; Rec* p=&icl::operator<<(r,c); w.put('{'); for(int i=0;i<g.n;i++){ w<<g.k[i]; w.put(' '); } w.put('}'); obsRec(r); sx_check(p==&r,"streaming returns the stream"); sx_check(r.numbers==g.n,"every element is written once"); sx_check(same(r,w),"text of an element set"); sameK(c,g,"streaming leaves the set unchanged"); }
template<class T,int N> void strEM(){ typename T::C c; EM<T,N> g; symE<T,N>(g,"pre"); fillE<T,N>(c,g); Rec r,w; Rec* p=&(r<<c); w.put('{'); for(int i=0;i<g.n;i++){ w.put('('); w<<g.k[i]; w<<"->"; wantV(w,g.v[i]); w.put(')'); } w.put('}'); obsRec(r); sx_check(p==&r,"streaming returns the stream"); sx_check(r.numbers==2*g.n,"every pair is written once"); sx_check(same(r,w),"text of an element map"); sameE<T,N>(c,g,"streaming leaves the map unchanged"); }
inline void strBounds(){ auto b=icl::interval_bounds((icl::bound_type)sx_rng("bounds",8,0,3)); Rec r; r<<b; obsRec(r); unsigned k=b.bits(); sx_check((r.n==2)&(r.numbers==0),"bounds are two brackets"); if(r.n==2) sx_check((r.t[0].v==(uint64_t)((k&kLeft)?'[':'('))&(r.t[1].v==(uint64_t)((k&kRight)?']':')')),"brackets show the bounds"); }
template<class K,class Tr,class I> using JM=MT<K,Tr,I,true>; template<class K,class Tr,class I> using PM=MT<K,Tr,I,false>;
#define SI(n,I) HARNESS(iv_##n){ strIv<I>(); }
#define SS_(n,N,...) HARNESS(set_##n){ typedef __VA_ARGS__ C; strS<C,N>(); }
#define SM(n,N,...) HARNESS(map_##n){ typedef __VA_ARGS__ T; strM<T,N>(); }
#define SE(n,N,...) HARNESS(el_##n){ typedef __VA_ARGS__ C; strE<C,N>(); }
#define SEM(n,N,...) HARNESS(em_##n){ typedef __VA_ARGS__ T; strEM<T,N>(); }
#if SHARD==1
IV_INT(SI) SI(ros,RO<short>) SI(clus,CL<unsigned short>) SI(diu,DI<unsigned>) SI(lol,LO<long>) SI(opul,OP<unsigned long>) IV_CONT(SI) HARNESS(bounds){ strBounds(); }
#elif SHARD==2
SS_(jro,NS,Js<int,RO<int>>) SS_(slo,NS,Ss<int,LO<int>>) SS_(pcl,NS,Ps<int,CL<int>>) SS_(jop,NS,Js<int,OP<int>>) SS_(jdi,ND,Js<int,DI<int>>) SS_(pdi,ND,Ps<int,DI<int>>) SS_(sdi,ND,Ss<int,DI<int>>) SS_(jci,ND,Js<double,CI<double>>) SS_(sci,ND,Ss<double,CI<double>>) SS_(jrd,NS,Js<double,RO<double>>) SS_(pru,NS,Ps<unsigned,RO<unsigned>>) SS_(jgr,NS,icl::interval_set<int,std::greater,icl::right_open_interval<int,std::greater>>)
#elif SHARD==3
SM(ja,NM,JM<KPlus,PA,RO<int>>) SM(je,NM,JM<KPlus,PE,CL<int>>) SM(ta,NM,JM<KPlus,TA,LO<int>>) SM(te,NM,PM<KPlus,TE,OP<int>>) SM(pd,ND,PM<KPlus,PA,DI<int>>) SM(jd,ND,JM<KPlus,PE,DI<int>>) SM(ci,ND,JM<KPlus,PA,CI<double>>) SM(js,NM,JM<KSet,PA,RO<int>>) SM(pb,NM,PM<KBit,PE,RO<int>>) HARNESS(nest){ strNest<2>(); }
#elif SHARD==4
SE(s,NK,std::set<int>) SE(g,NK,std::set<int,std::greater<int>>) SE(u,NK,std::set<unsigned>) SE(l,NK,std::set<long>)
SEM(pa,NK,ET<KPlus,PA,int>) SEM(pe,NK,ET<KPlus,PE,int>) SEM(ta,NK,ET<KPlus,TA,int>) SEM(te,NK,ET<KMax,TE,int>) SEM(g,NK,ET<KPlus,PA,int,std::greater>) SEM(b,NK,ET<KBit,PE,unsigned>) SEM(st,NK,ET<KSet,PA,int>)
#endif
