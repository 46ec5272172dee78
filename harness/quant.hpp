// Exact quantification over all points: piecewise constant facts only change at borders, so it is enough to look at every border (and before the first one).
#pragma once
#include "maps.hpp"
template<class I,int M> struct Pts { typename IT<I>::P p[M?M:1]; int n=0; void add(typename IT<I>::P q){ p[n++]=q; } template<int N> void of(const Segs<I,N>& g){ for(int i=0;i<g.n;i++){ auto r=g.r(i); add(r.s); add(r.e); } } template<class T,int N> void ofM(const MSegs<T,N>& g){ for(int i=0;i<g.n;i++){ auto r=g.r(i); add(r.s); add(r.e); } } void of(typename IT<I>::R r){ add(r.s); add(r.e); } };
// for all points q: f(q)
template<class I,int M,class F> inline bool all(const Pts<I,M>& s,F f){ bool b=true; for(int i=0;i<s.n;i++) b&=f(s.p[i]); return b; }
template<class I,int M,class F> inline bool some(const Pts<I,M>& s,F f){ bool b=false; for(int i=0;i<s.n;i++) b|=f(s.p[i]); return b; }
