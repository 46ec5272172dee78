// aggregation functors, their inverses, neutral and unit elements
#include "quant.hpp"
#include <boost/icl/functors.hpp>
#include <boost/icl/set.hpp>
#include <boost/icl/map.hpp>
#include <boost/icl/type_traits/unit_element.hpp>
#include <boost/icl/type_traits/has_inverse.hpp>
template<class A,class B> struct is_same_{ static const bool v=false; }; template<class A> struct is_same_<A,A>{ static const bool v=true; };
template<class T> inline uint64_t ob(T v){ uint64_t a=0; __builtin_memcpy(&a,&v,sizeof v<8?sizeof v:8); return a; } inline uint64_t ob(BS v){ return v.b; }
template<class F,class T> inline T ap(T a,T b){ T o=a; const T x=b; F()(o,x); sx_check(x==b,"the operand is left unchanged"); sx_observe(ob(o)); return o; }
template<class F> using inv=typename icl::inverse<F>::type;
template<class T> struct Q; // symbolic values: v() any value of the range in which a+b, a-b are representable, w() small factors
template<class T> struct QI { static constexpr int64_t B=sizeof(T)==1?63:sizeof(T)==2?16383:sizeof(T)==4?1073741823:(int64_t)1<<61; static T v(const char* n){ return (T)sx_rng(n,8*sizeof(T),-B,B); } static T w(const char* n){ return (T)sx_rng(n,8*sizeof(T),-11,11); } };
template<class T> struct QU { static T v(const char* n){ return Dom<T>::sym(n); } static T w(const char* n){ return (T)sx_rng(n,8*sizeof(T),0,15); } };
template<> struct Q<int>:QI<int>{}; template<> struct Q<short>:QI<short>{}; template<> struct Q<long>:QI<long>{}; template<> struct Q<long long>:QI<long long>{ static long long v(const char* n){ return QI<long>::v(n); } }; template<> struct Q<signed char>:QI<signed char>{}; template<> struct Q<unsigned>:QU<unsigned>{}; template<> struct Q<unsigned char>:QU<unsigned char>{}; template<> struct Q<unsigned short>:QU<unsigned short>{}; template<> struct Q<unsigned long>:QU<unsigned long>{};
template<class T> void plusI(){ T a=Q<T>::v("a"), b=Q<T>::v("b"), z=icl::identity_element<T>::value(); typedef icl::inplace_plus<T> P; typedef icl::inplace_minus<T> M; sx_check(ap<P>(a,b)==(T)(a+b),"plus"); sx_check(ap<M>(a,b)==(T)(a-b),"minus"); sx_check(ap<P>(a,P::identity_element())==a&&ap<P>(P::identity_element(),a)==a,"neutral element of plus"); sx_check(ap<M>(a,M::identity_element())==a,"neutral element of minus"); sx_check(z==T(0)&&P::identity_element()==z,"identity_element is zero"); sx_check(ap<inv<P>>(ap<P>(a,b),b)==a,"the inverse of plus undoes it"); sx_check(ap<inv<M>>(ap<M>(a,b),b)==a,"the inverse of minus undoes it"); sx_check(ap<inv<inv<P>>>(a,b)==ap<P>(a,b),"the inverse of the inverse"); 
  sx_check((T)icl::version<P>()(b)==b,"version of plus"); sx_check((T)icl::version<M>()(b)==(T)(0-b),"version of minus negates"); sx_check(icl::conversion<P>::proversion(b)==b,"proversion"); sx_check(icl::conversion<M>::inversion(b)==(T)(0-b),"inversion"); sx_check(icl::is_negative<M>::value&&!icl::is_negative<P>::value,"is_negative"); sx_check(icl::has_inverse<T>::value==(T(-1)<T(0)),"has_inverse"); typedef icl::inter_section<T> X; sx_check(ap<X>(a,b)==(T)(a+b),"intersection of values without set semantics adds"); sx_check(ap<inv<X>>(ap<X>(a,b),b)==a,"inverse of that intersection");
  sx_check(icl::unit_element<T>::value()==T(1),"unit element"); sx_check(icl::succ(a)==(T)(a+1)&&icl::pred(a)==(T)(a-1),"succ and pred"); sx_check((icl::successor<T,std::less<T>>::apply(a))==(T)(a+1)&&(icl::predecessor<T,std::less<T>>::apply(a))==(T)(a-1),"successor in increasing order"); sx_check((icl::successor<T,std::greater<T>>::apply(a))==(T)(a-1)&&(icl::predecessor<T,std::greater<T>>::apply(a))==(T)(a+1),"successor in decreasing order"); }
template<class T> void bitI(){ T a=Q<T>::v("a"), b=Q<T>::v("b"); typedef icl::inplace_bit_add<T> A; typedef icl::inplace_bit_subtract<T> S; typedef icl::inplace_bit_and<T> N; typedef icl::inplace_bit_xor<T> X; sx_check(ap<A>(a,b)==(T)(a|b),"bit_add"); sx_check(ap<S>(a,b)==(T)(a&~b),"bit_subtract"); sx_check(ap<N>(a,b)==(T)(a&b),"bit_and"); sx_check(ap<X>(a,b)==(T)(a^b),"bit_xor"); sx_check(ap<A>(a,A::identity_element())==a,"neutral element of bit_add"); sx_check(ap<S>(a,S::identity_element())==a,"neutral element of bit_subtract"); sx_check(ap<X>(a,X::identity_element())==a,"neutral element of bit_xor");
  sx_check(ap<inv<A>>(ap<A>(a,b),b)==(T)(a&~b),"counterpart of bit_add"); sx_check(ap<inv<S>>(ap<S>(a,b),b)==(T)(a|b),"counterpart of bit_subtract"); sx_check(ap<inv<N>>(a,b)==(T)(a^b)&&ap<inv<X>>(a,b)==(T)(a&b),"counterparts of bit_and and bit_xor"); sx_check(ap<icl::inplace_et<T>>(a,b)==(T)(a&b)&&ap<icl::inplace_caret<T>>(a,b)==(T)(a^b),"et, caret"); sx_check((T)icl::version<A>()(b)==b,"version of bit_add"); }
template<class T> void ordI(){ T a=Q<T>::v("a"), b=Q<T>::v("b"); typedef icl::inplace_max<T> X; typedef icl::inplace_min<T> N; sx_check(ap<X>(a,b)==(a<b?b:a),"max"); sx_check(ap<N>(a,b)==(b<a?b:a),"min"); sx_check(ap<inv<X>>(a,b)==(b<a?b:a)&&ap<inv<N>>(a,b)==(a<b?b:a),"counterparts of max and min"); if(!(a<T(0))) sx_check(ap<X>(a,X::identity_element())==a,"neutral element of max on non-negative values"); if(!(T(0)<a)) sx_check(ap<N>(a,N::identity_element())==a,"neutral element of min on non-positive values"); sx_check((T)icl::version<X>()(b)==b&&(T)icl::version<N>()(b)==b,"versions of max and min");
  typedef icl::inplace_identity<T> I; typedef icl::inplace_erasure<T> E; sx_check(ap<I>(a,b)==a,"identity functor"); sx_check(ap<E>(a,b)==(a==b?T(0):a),"erasure functor"); sx_check(ap<inv<I>>(a,b)==(a==b?T(0):a),"inverse of the identity functor"); sx_check(ap<inv<App<T>>>(a,b)==(a==b?T(0):a),"inverse of a user defined functor is erasure"); }
template<class T> void mulI(){ T a=Q<T>::w("a"), b=Q<T>::w("b"); typedef icl::inplace_star<T> S; typedef icl::inplace_slash<T> D; sx_check(ap<S>(a,b)==(T)(a*b),"star"); if(b!=T(0)){ sx_check(ap<D>(a,b)==(T)(a/b),"slash"); sx_check(ap<inv<S>>(ap<S>(a,b),b)==a,"the inverse of star undoes it"); sx_check(ap<inv<D>>(a,b)==(T)(a*b),"the inverse of slash"); } }
void dbl(){ double a=Dom<double>::sym("a"), b=Dom<double>::sym("b"); typedef double T; typedef icl::inplace_plus<T> P; typedef icl::inplace_minus<T> M; typedef icl::inplace_max<T> X; typedef icl::inplace_min<T> N; double s=a+b, d=a-b; sx_check(ap<P>(a,b)==s,"plus"); sx_check(ap<inv<P>>(a,b)==d,"inverse of plus"); sx_check(ap<M>(a,b)==d&&ap<inv<M>>(a,b)==s,"minus"); sx_check(ap<P>(a,P::identity_element())==a,"neutral element of plus"); sx_check(ap<M>(a,M::identity_element())==a,"neutral element of minus"); sx_check(ap<X>(a,b)==(a<b?b:a)&&ap<N>(a,b)==(b<a?b:a),"max and min"); sx_check(ap<inv<X>>(a,b)==(b<a?b:a),"counterpart of max"); sx_check(icl::version<M>()(b)==-b,"version of minus"); sx_check(icl::identity_element<T>::value()==0.0&&icl::unit_element<T>::value()==1.0,"identity and unit element"); sx_check(icl::has_inverse<double>::value,"has_inverse"); }
HARNESS(bs){ typedef BS T; T a=KSet::sym("a"), b=KSet::sym("b"); sx_check(ap<icl::inplace_plus<T>>(a,b).b==(a.b|b.b),"plus of sets is union"); sx_check(ap<icl::inplace_minus<T>>(a,b).b==(a.b&~b.b),"minus of sets is difference"); typedef icl::inter_section<T> X; sx_check(ap<X>(a,b).b==(a.b&b.b),"intersection"); sx_check(ap<inv<X>>(a,b).b==(a.b^b.b),"inverse of intersection is symmetric difference"); typedef icl::inplace_et<T> E; sx_check(ap<E>(a,b).b==(a.b&b.b)&&ap<inv<E>>(a,b).b==(a.b^b.b)&&ap<inv<inv<E>>>(a,b).b==(a.b&b.b),"et and caret"); sx_check(icl::identity_element<T>::value().b==0,"identity element is the empty set"); sx_check(!icl::has_inverse<T>::value,"has_inverse"); sx_check(icl::has_set_semantics<T>::value&&!icl::has_set_semantics<int>::value,"has_set_semantics"); }
// codomains that are containers themselves
using namespace boost::icl;
template<class C,int N,int M> void cod(){ typedef typename C::interval_type I; auto x=symPos<I>("x"); Segs<I,N> g; symSegs<C,N>(g,"pre"); C c; fill(c,g); Segs<I,M> h; symSegs<C,M>(h,"arg"); C b; fill(b,h); bool p=g.mem(x), q=h.mem(x), e=false; switch((int)sx_choose(8)){ case 0: icl::inplace_plus<C>()(c,b); e=p|q; break; case 1: icl::inplace_minus<C>()(c,b); e=p&!q; break; case 2: icl::inplace_et<C>()(c,b); e=p&q; break; case 3: icl::inplace_caret<C>()(c,b); e=p!=q; break; case 4: icl::inplace_insert<C>()(c,b); e=p|q; break; case 5: icl::inplace_erase<C>()(c,b); e=p&!q; break; case 6: icl::inter_section<C>()(c,b); e=p&q; break; default: inv<icl::inter_section<C>>()(c,b); e=p!=q; } wellFormed(c); obsSet(c); sx_check(memAt(c,x)==e,"functor on interval set values"); sameSegs(b,h,"the operand is left unchanged"); sx_check(icl::is_empty(icl::identity_element<C>::value()),"the neutral set is empty"); }
template<int N> void codS(){ typedef std::set<int> C; int x=Dom<int>::sym("x"); C a,b; bool p=false,q=false; int n=(int)sx_choose(N+1), k=0; for(int i=0;i<n;i++){ int v=Dom<int>::sym("pre"); if(i) sx_assume(k<v); k=v; a.insert(a.end(),v); p|=v==x; } n=(int)sx_choose(N+1); for(int i=0;i<n;i++){ int v=Dom<int>::sym("arg"); if(i) sx_assume(k<v); k=v; b.insert(b.end(),v); q|=v==x; }
  bool e=false; switch((int)sx_choose(7)){ case 0: icl::inplace_plus<C>()(a,b); e=p|q; break; case 1: icl::inplace_minus<C>()(a,b); e=p&!q; break; case 2: icl::inplace_et<C>()(a,b); e=p&q; break; case 3: icl::inplace_caret<C>()(a,b); e=p!=q; break; case 4: icl::inplace_insert<C>()(a,b); e=p|q; break; case 5: icl::inplace_erase<C>()(a,b); e=p&!q; break; default: icl::inter_section<C>()(a,b); e=p&q; } sx_observe(a.size()); sx_check((a.find(x)!=a.end())==e,"functor on set values"); sx_check(icl::identity_element<C>::value().empty(),"the neutral set is empty"); }
#define INT(T,n) HARNESS(plus_##n){ plusI<T>(); } HARNESS(bit_##n){ bitI<T>(); } HARNESS(ord_##n){ ordI<T>(); } HARNESS(mul_##n){ mulI<T>(); }
INT(int,int) INT(short,short) INT(long,long) INT(signed char,schar) INT(unsigned,uint) INT(unsigned char,uchar) INT(unsigned short,ushort) INT(unsigned long,ulong) INT(long long,llong)
HARNESS(dbl){ dbl(); }
HARNESS(bool_){ bool a=sx_bool("a"), b=sx_bool("b"); sx_check(ap<icl::inplace_bit_add<bool>>(a,b)==(a|b)&&ap<icl::inplace_bit_and<bool>>(a,b)==(a&b)&&ap<icl::inplace_bit_xor<bool>>(a,b)==(a!=b),"functors on bool"); sx_check(icl::unit_element<bool>::value()&&!icl::identity_element<bool>::value(),"identity and unit of bool"); }
typedef Js<int,RO<int>> jro; typedef Ps<int,CL<int>> pcl; typedef Ss<int,RO<int>> sro;
#ifdef THOROUGH
HARNESS(cod_jro){ cod<jro,3,3>(); } HARNESS(cod_pcl){ cod<pcl,3,2>(); } HARNESS(cod_sro){ cod<sro,3,2>(); } HARNESS(cod_set){ codS<4>(); }
#else
HARNESS(cod_jro){ cod<jro,2,2>(); } HARNESS(cod_pcl){ cod<pcl,2,1>(); } HARNESS(cod_sro){ cod<sro,2,1>(); } HARNESS(cod_set){ codS<3>(); }
#endif
