// Oracle layer: intervals and containers as half-open ranges of border positions; no ICL code in the oracle.
#pragma once
#include "sx.hpp"
#include <limits>
#include <utility>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/interval.hpp>
namespace icl = boost::icl;

namespace boost { inline void sx_keep(){} }

// ------------------------------------------------------------------ border positions
// discrete domain: position p = the gap between elements p-1 and p.   continuous: (v,a) = just before/after v
struct CPos { double v; bool a; };
inline bool lt(CPos x, CPos y){ return (x.v<y.v) | ((x.v==y.v) & (!x.a) & y.a); }
inline bool eq(CPos x, CPos y){ return (x.v==y.v) & (x.a==y.a); }
template<class W> inline bool lt(W x, W y){ return x<y; }
template<class W> inline bool eq(W x, W y){ return x==y; }
template<class P> inline bool le(P x, P y){ return !lt(y,x); }
template<class P> inline P pmax(P x, P y){ return lt(x,y)?y:x; }
template<class P> inline P pmin(P x, P y){ return lt(y,x)?y:x; }
inline CPos pmax(CPos x, CPos y){ bool b=lt(x,y); CPos r; r.v=b?y.v:x.v; r.a=b?y.a:x.a; return r; }
inline CPos pmin(CPos x, CPos y){ bool b=lt(y,x); CPos r; r.v=b?y.v:x.v; r.a=b?y.a:x.a; return r; }

template<class P> struct Rng { P s, e; };
template<class P> inline bool nonempty(Rng<P> r){ return lt(r.s,r.e); }
template<class P> inline bool has(Rng<P> r, P p){ return le(r.s,p) & lt(p,r.e); }          // the element/point right after p
template<class P> inline bool hasL(Rng<P> r, P p){ return lt(r.s,p) & le(p,r.e); }         // the element/point right before p
template<class P> inline bool inner(Rng<P> r, P p){ return lt(r.s,p) & lt(p,r.e); }
template<class P> inline bool overlap(Rng<P> a, Rng<P> b){ return nonempty(a)&nonempty(b)&lt(a.s,b.e)&lt(b.s,a.e); }
template<class P> inline bool sub(Rng<P> a, Rng<P> b){ return (!nonempty(a)) | (le(b.s,a.s)&le(a.e,b.e)); }

// ------------------------------------------------------------------ domains: value type T <-> ordinal O
template<class T> struct Dom;
template<class O, class W_> struct IntDom { typedef O ord; typedef W_ pos; static constexpr bool discrete=true;
  static W_ before(O o){ return (W_)o; } static W_ after(O o){ return (W_)o+1; }
  static bool lto(O a,O b){ return a<b; } };
template<class T, class W_> struct PlainInt : IntDom<T,W_> {
  static T from(T o){ return o; } static T to(T t){ return t; }
  static constexpr int margin = 4;         // borders stay this far from the limits of the type
  static T sym(const char* n){ if constexpr (std::is_signed<T>::value) return (T)sx_rng(n,8*sizeof(T),(int64_t)std::numeric_limits<T>::min()+margin,(int64_t)std::numeric_limits<T>::max()-margin);
    else { T v=(T)sx_rng(n,8*sizeof(T),-((int64_t)1<<(8*sizeof(T)-1)),(int64_t)(((uint64_t)1<<(8*sizeof(T)-1))-1)); sx_assume((v>=(T)margin)&(v<=(T)(std::numeric_limits<T>::max()-margin))); return v; } } };
template<> struct Dom<int> : PlainInt<int,int64_t> {};
template<> struct Dom<unsigned> : PlainInt<unsigned,int64_t> {};
template<> struct Dom<short> : PlainInt<short,int32_t> {};
template<> struct Dom<unsigned short> : PlainInt<unsigned short,int32_t> {};
template<> struct Dom<signed char> : PlainInt<signed char,int32_t> {};
template<> struct Dom<char> : PlainInt<char,int32_t> {};
template<> struct Dom<unsigned char> : PlainInt<unsigned char,int32_t> {};
template<> struct Dom<long> : PlainInt<long,__int128> {};
template<> struct Dom<unsigned long> : PlainInt<unsigned long,__int128> {};
template<> struct Dom<double> { typedef double ord; typedef CPos pos; static constexpr bool discrete=false;
  static double from(double o){ return o; } static double to(double t){ return t; }
  static double sym(const char* n){ double v=sx_f64(n); sx_assume((v>=-1e300)&(v<=1e300)); return v; }
  static CPos before(double v){ CPos p; p.v=v; p.a=false; return p; } static CPos after(double v){ CPos p; p.v=v; p.a=true; return p; }
  static bool lto(double a,double b){ return a<b; } };

// a value type with a reversed order, used with std::greater
template<class T> struct RevDom : Dom<T> { typedef Dom<T> B; static T from(typename B::ord o){ return B::from(-o); } static typename B::ord to(T t){ return -B::to(t); } };
template<class T, class Cmp> struct DomC : Dom<T> {};
template<class T> struct DomC<T, std::greater<T> > : RevDom<T> {};

// ------------------------------------------------------------------ raw segments
enum { kRight=1, kLeft=2 };
template<class O> struct Seg { O lo, up; unsigned b; };

template<class I> struct IT;   // interval type traits
template<template<class,ICL_COMPARE> class I, class T, template<class>class C, int K> struct ITBase {
  typedef T dom; typedef DomC<T, C<T> > D; typedef typename D::ord O; typedef typename D::pos P; typedef Seg<O> S; typedef Rng<P> R;
  static constexpr bool dyn = K==4; static constexpr unsigned kind = K;
  static R rng(const S& s){ R r; if constexpr (D::discrete) { r.s = (s.b&kLeft)? D::before(s.lo):D::after(s.lo); r.e = (s.b&kRight)? D::after(s.up):D::before(s.up); }
    else { r.s = D::before(s.lo); r.s.a = !(s.b&kLeft); r.e = D::before(s.up); r.e.a = (s.b&kRight)!=0; } return r; }
};
template<class I> struct ITs { };
#define SX_STATIC_IT(CLS,K) template<class T, template<class>class C> struct IT<icl::CLS<T,C> > : ITBase<icl::CLS,T,C,K> { \
   typedef icl::CLS<T,C> I; typedef ITBase<icl::CLS,T,C,K> B; typedef typename B::S S; \
   static I mk(const S& s){ return I(B::D::from(s.lo),B::D::from(s.up)); } \
   static S raw(const I& i){ S s; s.lo=B::D::to(i.lower()); s.up=B::D::to(i.upper()); s.b=K; return s; } };
SX_STATIC_IT(right_open_interval,2)
SX_STATIC_IT(left_open_interval,1)
SX_STATIC_IT(closed_interval,3)
SX_STATIC_IT(open_interval,0)
#define SX_DYN_IT(CLS) template<class T, template<class>class C> struct IT<icl::CLS<T,C> > : ITBase<icl::CLS,T,C,4> { \
   typedef icl::CLS<T,C> I; typedef ITBase<icl::CLS,T,C,4> B; typedef typename B::S S; \
   static I mk(const S& s){ return I(B::D::from(s.lo),B::D::from(s.up),icl::interval_bounds((icl::bound_type)s.b)); } \
   static S raw(const I& i){ S s; s.lo=B::D::to(i.lower()); s.up=B::D::to(i.upper()); s.b=i.bounds().bits(); return s; } };
SX_DYN_IT(discrete_interval)
SX_DYN_IT(continuous_interval)

template<class I> inline typename IT<I>::R rngOf(const I& i){ return IT<I>::rng(IT<I>::raw(i)); }
// any interval of type I, possibly empty
template<class I> inline typename IT<I>::S symSeg(const char* nm){ typename IT<I>::S s; s.lo=IT<I>::D::sym(nm); s.up=IT<I>::D::sym(nm);
  if constexpr (IT<I>::dyn) { s.b=sx_bool("left_closed")?kLeft:0; s.b|=sx_bool("right_closed")?kRight:0; } else s.b=IT<I>::kind; return s; }
template<class I> inline typename IT<I>::S symNE(const char* nm){ auto s=symSeg<I>(nm); sx_assume(nonempty(IT<I>::rng(s))); return s; }
// any border position
template<class I> inline typename IT<I>::P symPos(const char* nm){ typename IT<I>::D::ord o=IT<I>::D::sym(nm); if constexpr (IT<I>::D::discrete) return IT<I>::D::before(o); else { auto p=IT<I>::D::before(o); p.a=sx_bool("after"); return p; } }
template<class I> inline void obsSeg(const typename IT<I>::S& s){ uint64_t a=0,b=0; auto lo=s.lo; auto up=s.up; __builtin_memcpy(&a,&lo,sizeof lo<8?sizeof lo:8); __builtin_memcpy(&b,&up,sizeof up<8?sizeof up:8); sx_observe(a); sx_observe(b); sx_observe(s.b); }
