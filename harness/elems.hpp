// element sets (std::set) and element maps (icl::map): pre-states and probes
#pragma once
#include "quant.hpp"
#include <boost/icl/set.hpp>
#include <boost/icl/map.hpp>
template<class D,int N> struct Keys { D k[N]; int n; bool mem(D x)const{ bool m=false; for(int i=0;i<n;i++) m|=k[i]==x; return m; } };
template<class C,class D,int N> inline void symKeys(Keys<D,N>& g,const char* nm){ typename C::key_compare lt; g.n=(int)sx_choose(N+1); for(int i=0;i<g.n;i++){ g.k[i]=Dom<D>::sym(nm); if(i) sx_assume(lt(g.k[i-1],g.k[i])); } }
template<class C,class D,int N> inline void fillK(C& c,const Keys<D,N>& g){ for(int i=0;i<g.n;i++) c.insert(c.end(),g.k[i]); }
template<class C> inline void obsK(const C& c){ for(auto i=c.begin();i!=c.end();++i) sx_observe((uint64_t)*i); sx_observe(c.size()); }
template<class C,class D,int N> inline void sameK(const C& c,const Keys<D,N>& g,const char* msg){ bool ok=c.size()==(uint64_t)g.n; int k=0; for(auto i=c.begin();i!=c.end();++i,++k) if(k<g.n) ok&=*i==g.k[k]; sx_check(ok,msg); }
template<class C> inline bool hasK(const C& c,typename C::key_type x){ bool m=false; for(auto i=c.begin();i!=c.end();++i) m|=*i==x; return m; }
template<class K_,class Tr_,class D_,template<class>class Cm=std::less> struct ET : MT<K_,Tr_,RO<int>,true> { typedef D_ D; typedef icl::map<D_,typename K_::V,Tr_,Cm,K_::template Comb> C; typedef typename C::element_type El; };
template<class T,int N> struct EM { typedef typename T::D D; typedef typename T::V V; D k[N]; V v[N]; int n; MV<V> at(D x)const{ MV<V> m=mv<V>(false,T::K::id()); for(int i=0;i<n;i++) m=msel(k[i]==x,mv<V>(true,v[i]),m); return m; } };
template<class T,int N> inline void symE(EM<T,N>& g,const char* nm){ typename T::C::key_compare lt; g.n=(int)sx_choose(N+1); for(int i=0;i<g.n;i++){ g.k[i]=Dom<typename T::D>::sym(nm); g.v[i]=T::K::sym("value"); if(T::absorb) sx_assume(!veq(g.v[i],T::K::id())); if(i) sx_assume(lt(g.k[i-1],g.k[i])); } }
template<class T,int N> inline void fillE(typename T::C& c,const EM<T,N>& g){ auto& t=(typename T::C::base_type&)c; for(int i=0;i<g.n;i++) t.insert(t.end(),typename T::El(g.k[i],g.v[i])); }
template<class T> inline MV<typename T::V> atE(const typename T::C& c,typename T::D x){ typedef typename T::V V; MV<V> m=mv<V>(false,T::K::id()); for(auto i=c.begin();i!=c.end();++i) m=msel((*i).first==x,mv<V>(true,(*i).second),m); return m; }
template<class T> inline void wellE(const typename T::C& c){ typename T::C::key_compare lt; bool ok=true,ab=true; auto p=c.begin(); for(auto i=c.begin();i!=c.end();++i){ if(i!=p) { ok&=lt((*p).first,(*i).first); p=i; } if(T::absorb) ab&=!veq((*i).second,T::K::id()); sx_observe((uint64_t)(*i).first); sx_observe(vob((*i).second)); } sx_check(ok,"keys are ordered and unique"); sx_check(ab,"an absorbing map stores no neutral value"); }
template<class T,int N> inline void sameE(const typename T::C& c,const EM<T,N>& g,const char* msg){ bool ok=c.size()==(uint64_t)g.n; int k=0; for(auto i=c.begin();i!=c.end();++i,++k) if(k<g.n) ok&=((*i).first==g.k[k])&veq((*i).second,g.v[k]); sx_check(ok,msg); }
