#include "ivals.hpp"
template<class I> void basics(){ typedef IT<I> X; typedef typename X::D D; typedef typename D::ord O;
  auto s=symSeg<I>("seg"); I i=X::mk(s); auto r=X::rng(s); O eo=D::sym("element"); auto e=D::from(eo);
  bool ne=nonempty(r); bool c=icl::contains(i,e); sx_observe(c);
  sx_check(icl::is_empty(i)==!ne,"is_empty iff no value is admitted");
  sx_check(c==has(r,D::before(eo)),"contains(interval,element) iff the bounds admit the element");
  sx_check(D::to(icl::lower(i))==s.lo,"lower"); sx_check(D::to(icl::upper(i))==s.up,"upper"); sx_check(icl::bounds(i).bits()==s.b,"bounds");
  sx_check((D::to(i.lower())==s.lo)&(D::to(i.upper())==s.up),"member lower and upper");
  if constexpr (D::discrete){ if(ne){ auto f=icl::first(i); auto l=icl::last(i); auto ln=icl::last_next(i); sx_check(D::before(D::to(f))==r.s,"first"); sx_check(D::after(D::to(l))==r.e,"last"); sx_check(D::before(D::to(ln))==r.e,"last_next");
    sx_check(icl::contains(i,f)&icl::contains(i,l)&!icl::contains(i,ln),"first and last are contained, last_next is not"); } }
  I cp(i); I as; as=i; sx_check((IT<I>::raw(cp).lo==s.lo)&(IT<I>::raw(cp).up==s.up)&(IT<I>::raw(cp).b==s.b)&(IT<I>::raw(as).lo==s.lo)&(IT<I>::raw(as).up==s.up)&(IT<I>::raw(as).b==s.b),"copies are identical"); }
template<class I> void makers(){ typedef IT<I> X; typedef typename X::D D; typedef typename D::ord O; typedef typename X::P P;
  O a=D::sym("a"), b=D::sym("b"); auto va=D::from(a), vb=D::from(b); O mn=D::lto(a,b)?a:b, mx=D::lto(a,b)?b:a;
  I d; sx_check(icl::is_empty(d)&!nonempty(rngOf(d)),"a default constructed interval is empty");
  { I v=icl::identity_element<I>::value(); sx_check(!nonempty(rngOf(v)),"the neutral interval is empty"); }
  if constexpr (D::discrete || X::dyn){
    sx_check(sameRng<I>(rngOf(I(va)),R2<I>(D::before(a),D::after(a))),"I(value) is the singleton");
    sx_check(sameRng<I>(rngOf(icl::singleton<I>(va)),R2<I>(D::before(a),D::after(a))),"singleton contains exactly its value");
    sx_check(sameRng<I>(rngOf(icl::detail::unit_trail<I>(va)),R2<I>(D::before(a),D::after(a))),"unit_trail contains exactly its value");
    sx_check(sameRng<I>(rngOf(icl::hull<I>(va,vb)),R2<I>(D::before(mn),D::after(mx))),"hull of two values is the closed range between them"); }
  Seg<O> w; w.lo=mn; w.up=mx; w.b= X::dyn? kLeft : X::kind; sx_check(sameRng<I>(rngOf(icl::span<I>(va,vb)),X::rng(w)),"span orders its endpoints"); w.lo=a; w.up=b; sx_check(sameRng<I>(rngOf(icl::construct<I>(va,vb)),X::rng(w)),"construct keeps its endpoints");
  sx_check(sameRng<I>(rngOf(I(va,vb)),X::rng(w)),"I(low,up)"); sx_check(sameRng<I>(rngOf(icl::interval_traits<I>::construct(va,vb)),X::rng(w)),"traits construct");
  if constexpr (X::dyn){ typedef typename D::pos PP; 
    for(unsigned k=0;k<4;k++){ w.b=k; icl::interval_bounds ib((icl::bound_type)k); sx_check(sameRng<I>(rngOf(icl::construct<I>(va,vb,ib)),X::rng(w))&(icl::construct<I>(va,vb,ib).bounds().bits()==k),"construct with bounds");
      typedef typename I::bounded_domain_type BD; I j=icl::construct<I>(BD(va,ib.left()),BD(vb,ib.right())); sx_check((IT<I>::raw(j).b==k)&sameRng<I>(rngOf(j),X::rng(w)),"construct from bounded values");
      sx_check((icl::bounded_lower(j).bound().bits()==(k&2))&(D::to(icl::bounded_lower(j).value())==a)&(icl::bounded_upper(j).bound().bits()==(k&1))&(D::to(icl::bounded_upper(j).value())==b),"bounded_lower / bounded_upper");
      sx_check((icl::reverse_bounded_lower(j).bound().bits()==((k&2)?0:1))&(icl::reverse_bounded_upper(j).bound().bits()==((k&1)?0:2)),"reversed bounds point to the other side"); }
    w.b=2; sx_check(sameRng<I>(rngOf(I::right_open(va,vb)),X::rng(w)),"I::right_open"); w.b=1; sx_check(sameRng<I>(rngOf(I::left_open(va,vb)),X::rng(w)),"I::left_open"); w.b=0; sx_check(sameRng<I>(rngOf(I::open(va,vb)),X::rng(w)),"I::open"); w.b=3; sx_check(sameRng<I>(rngOf(I::closed(va,vb)),X::rng(w)),"I::closed"); }
  sx_observe(0); }
// interval<T>::open(...) ... with the default interval type
template<class T,template<class>class C> void families(){ typedef icl::interval<T,C> G; typedef typename G::interval_type I; typedef IT<I> X; typedef typename X::D D; auto a=D::sym("a"), b=D::sym("b"); auto va=D::from(a), vb=D::from(b);
  sx_assume(!D::lto(b,a)); 
  auto lo=[&](bool cl){ if constexpr(D::discrete) return cl?D::before(a):D::after(a); else { auto p=D::before(a); p.a=!cl; return p; } }; auto up=[&](bool cl){ if constexpr(D::discrete) return cl?D::after(b):D::before(b); else { auto p=D::before(b); p.a=cl; return p; } };
  sx_check(sameRng<I>(rngOf(G::right_open(va,vb)),R2<I>(lo(true),up(false))),"interval<T>::right_open");
  if constexpr(X::dyn||D::discrete){ sx_check(sameRng<I>(rngOf(G::closed(va,vb)),R2<I>(lo(true),up(true))),"interval<T>::closed"); sx_check(sameRng<I>(rngOf(G::left_open(va,vb)),R2<I>(lo(false),up(true))),"interval<T>::left_open"); sx_check(sameRng<I>(rngOf(G::open(va,vb)),R2<I>(lo(false),up(false))),"interval<T>::open"); }
  I c=G::construct(va,vb); sx_check(sameRng<I>(rngOf(c),R2<I>(lo(X::dyn||(X::kind&2)),up(!X::dyn&&(X::kind&1)))),"interval<T>::construct"); sx_observe(1); }
// values at the very limits of the domain: non-empty intervals
template<class I> void limits(){ typedef IT<I> X; typedef typename X::D D; typedef typename X::dom T; T lo=fullSym<T>("lo"), up=fullSym<T>("up"), e=fullSym<T>("e"); Seg<typename D::ord> s; s.lo=D::to(lo); s.up=D::to(up); s.b=X::dyn?(unsigned)sx_choose(4):X::kind; I i=X::mk(s); auto r=X::rng(s); 
  if((s.b&3)==0) sx_assume(lo<std::numeric_limits<T>::max()); // the emptiness test of open intervals increments the lower bound
  bool em=icl::is_empty(i); sx_check(em==!nonempty(r),"is_empty at the limits"); if(em) return; sx_check(icl::contains(i,e)==has(r,D::before(D::to(e))),"contains at the limits"); sx_check((D::before(D::to(icl::first(i)))==r.s)&(D::after(D::to(icl::last(i)))==r.e),"first and last at the limits"); }
