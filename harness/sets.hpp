// Interval sets: symbolic pre-states, membership, well-formedness
#pragma once
#include "model.hpp"
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
enum Style { JOIN, SEP, SPLIT };
template<class C> struct StyleOf;
template<class T, template<class>class Cm, class I, template<class>class A> struct StyleOf<icl::interval_set<T,Cm,I,A> > { static constexpr Style v=JOIN; };
template<class T, template<class>class Cm, class I, template<class>class A> struct StyleOf<icl::separate_interval_set<T,Cm,I,A> > { static constexpr Style v=SEP; };
template<class T, template<class>class Cm, class I, template<class>class A> struct StyleOf<icl::split_interval_set<T,Cm,I,A> > { static constexpr Style v=SPLIT; };

template<class I> inline bool okGap(const typename IT<I>::S& a, const typename IT<I>::S& b, bool strict){ auto x=IT<I>::rng(a), y=IT<I>::rng(b); return strict? lt(x.e,y.s) : le(x.e,y.s); }

template<class I,int N> struct Segs { typename IT<I>::S s[N?N:1]; int n;
  typedef typename IT<I>::P P; typedef typename IT<I>::R R;
  R r(int i) const { return IT<I>::rng(s[i]); }
  bool mem(P p) const { bool m=false; for(int i=0;i<n;i++) m|=has(r(i),p); return m; }
  bool memL(P p) const { bool m=false; for(int i=0;i<n;i++) m|=hasL(r(i),p); return m; }
  bool border(P p) const { bool m=false; for(int i=0;i<n;i++){ m|=eq(r(i).s,p); m|=eq(r(i).e,p);} return m; } };

// ---- wide mode: containers of N segments of a few concrete shapes; the first one generated lies at 0, later ones at one symbolic offset, or are the first one with one change
struct Wide { struct St { bool on; int n; int a[10], e[10]; bool have; }; static St& st(){ static St s; return s; } static bool on(){ return st().on; } Wide(){ st().on=true; st().have=false; } ~Wide(){ st().on=false; } };
struct WideShape { int gap[8], len[8]; };
inline const WideShape& wideShape(int k){ static const WideShape w[3]={ {{2,1,3,1,2,4,1,2},{3,1,2,4,1,1,2,3}}, {{0,0,2,0,0,0,1,0},{2,3,1,1,4,2,1,2}}, {{5,6,5,7,5,6,5,6},{1,2,1,1,2,1,1,2}} }; return w[k]; }
struct WideList { int n; int a[10], e[10]; int src[10]; int hit; bool der; };   // src: index in the first container, or own index; hit: which segment was changed
// merge: join touching segments (true for joining sets); with: a map whose values may differ
template<class I,int N> inline void wideList(WideList& l,bool merge,bool map,typename IT<I>::O& base){ static_assert(N<=8,""); auto& m=Wide::st(); base=(typename IT<I>::O)100; l.hit=-1; int c=(int)sx_choose(m.have?4:3); l.der=c==3;
  if(c<3){ const WideShape& w=wideShape(c); int p=0; l.n=N; for(int i=0;i<N;i++){ int gap=w.gap[i]; if(merge&&gap==0&&i) gap=3; l.a[i]=p+gap; l.e[i]=p=l.a[i]+w.len[i]; l.src[i]=i; }
    if(m.have) base=(typename IT<I>::O)(base+(typename IT<I>::O)sx_rng("offset",8*sizeof(typename IT<I>::O)<=32?8*sizeof(typename IT<I>::O):32,-60,60)); 
    else { m.have=true; m.n=N; for(int i=0;i<N;i++){ m.a[i]=l.a[i]; m.e[i]=l.e[i]; } } }
  else { int n0=m.n<N?m.n:N, kind=(int)sx_choose(5), at=(int)sx_choose(n0); l.n=0; l.hit=kind==0?-1:at; for(int i=0;i<n0;i++){ int a=m.a[i], e=m.e[i]; bool two=false; int cut=0; if(i==at){ if(kind==0) continue; int len=e-a; 
        if(kind==1){ int d=(int)sx_rng("trim",32,0,len-1); if(sx_bool("left")) a+=d; else e-=d; } if(kind==2&&len>1&&n0<N){ two=true; cut=a+(int)sx_rng("cut",32,1,len-1); } }
      bool skip=false; if(kind==4&&i==at&&i+1<n0){ if(e==m.a[i+1]){ e=m.e[i+1]; skip=true; } else e=m.a[i+1]; }
      if(merge&&l.n&&l.e[l.n-1]==a&&!map){ l.e[l.n-1]=e; i+=skip; continue; }
      l.a[l.n]=a; l.e[l.n]=e; l.src[l.n]=i; if(two&&!merge){ l.e[l.n]=cut; l.n++; l.a[l.n]=cut; l.e[l.n]=e; l.src[l.n]=i; if(l.hit==at) l.hit=l.n; } else if(i==at) l.hit=l.n; l.n++; i+=skip; } } }
template<class I> inline typename IT<I>::S wideSeg(typename IT<I>::O base,int a,int e,int i){ typedef typename IT<I>::D D; typedef typename IT<I>::O O; typename IT<I>::S s; unsigned b=IT<I>::kind; if constexpr (IT<I>::dyn) b=D::discrete?(unsigned)((i+1)%4):(unsigned)kLeft; s.b=b; 
  if constexpr (D::discrete){ s.lo=(O)(base+(O)((b&kLeft)?a:a-1)); s.up=(O)(base+(O)((b&kRight)?e-1:e)); } else { s.lo=base+a; s.up=base+e; } return s; }
template<class I,int N> inline void wideSegs(Segs<I,N>& g,bool join){ WideList l; typename IT<I>::O base; wideList<I,N>(l,join,false,base); g.n=l.n; for(int i=0;i<l.n;i++) g.s[i]=wideSeg<I>(base,l.a[i],l.e[i],i); }
// n in 0..N arbitrary segments valid for the given style
template<class C,int N> inline void symSegs(Segs<typename C::interval_type,N>& g, const char* nm, int fixed=-1){
  typedef typename C::interval_type I; if(Wide::on()){ wideSegs<I,N>(g,StyleOf<C>::v==JOIN); return; } g.n = fixed>=0? fixed : (int)sx_choose(N+1);
  for(int i=0;i<g.n;i++){ g.s[i]=symNE<I>(nm); if(i) sx_assume(okGap<I>(g.s[i-1],g.s[i],StyleOf<C>::v==JOIN)); } }
// builds the pre-state directly in the underlying ordered tree, not through the operations under test
template<class C> struct PeekSet : C { static auto ptr(){ return &PeekSet::_set; } };
template<class C,int N> inline void fill(C& c,const Segs<typename C::interval_type,N>& g){
#ifdef FILL_BY_ADD
  for(int i=0;i<g.n;i++) c.add(IT<typename C::interval_type>::mk(g.s[i]));
#else
  auto& t=c.*PeekSet<C>::ptr(); for(int i=0;i<g.n;i++) t.insert(t.end(), IT<typename C::interval_type>::mk(g.s[i]));
#endif
}

template<class C> inline bool memAt(const C& c, typename IT<typename C::interval_type>::P p){ bool m=false; for(typename C::const_iterator i=c.begin();i!=c.end();++i) m|=has(rngOf(*i),p); return m; }
template<class C> inline bool memLAt(const C& c, typename IT<typename C::interval_type>::P p){ bool m=false; for(typename C::const_iterator i=c.begin();i!=c.end();++i) m|=hasL(rngOf(*i),p); return m; }
// is p a border between two touching segments of c?
template<class C> inline bool cutAt(const C& c, typename IT<typename C::interval_type>::P p){ bool b=false; for(typename C::const_iterator i=c.begin();i!=c.end();++i) b|=eq(rngOf(*i).s,p)|eq(rngOf(*i).e,p); return b & memAt(c,p) & memLAt(c,p); }
// ordered, disjoint, non-empty, joined if joining
template<class C> inline void wellFormed(const C& c){ typedef typename C::interval_type I; bool ok=true, joined=true, first=true; typename IT<I>::P prev{}; 
  for(typename C::const_iterator i=c.begin();i!=c.end();++i){ auto r=rngOf(*i); ok&=nonempty(r); if(!first){ ok&=le(prev,r.s); joined&=!eq(prev,r.s); } prev=r.e; first=false; }
  sx_check(ok,"segments are non-empty, ordered and disjoint"); if(StyleOf<C>::v==JOIN) sx_check(joined,"a joining set holds no touching segments"); }
template<class C> inline void obsSet(const C& c){ uint64_t n=0; for(typename C::const_iterator i=c.begin();i!=c.end();++i){ obsSeg<typename C::interval_type>(IT<typename C::interval_type>::raw(*i)); n++; } sx_observe(n); }
// exact segment sequence
template<class C,int N> inline void sameSegs(const C& c,const Segs<typename C::interval_type,N>& g,const char* msg){ typedef typename C::interval_type I; int k=0; bool ok=true; for(typename C::const_iterator i=c.begin();i!=c.end();++i,++k) if(k<g.n){ auto a=rngOf(*i), b=g.r(k); ok&=eq(a.s,b.s)&eq(a.e,b.e); } sx_check(ok & (k==g.n),msg); }
