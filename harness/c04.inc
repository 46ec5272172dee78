#include "ivals.hpp"
// restricted to counts that fit the difference type
template<class I> void sizes(){ typedef IT<I> X; typedef typename X::D D; auto s=symSeg<I>("a"); I a=X::mk(s); auto ra=X::rng(s); bool na=nonempty(ra); typedef typename icl::difference_type_of<icl::interval_traits<I> >::type DT;
  if constexpr (D::discrete){ auto w=na?ra.e-ra.s:ra.s-ra.s; sx_assume(w<=(typename D::pos)2147483000); auto n=icl::cardinality(a); sx_observe(n); sx_check((typename D::pos)n==w,"cardinality counts the values"); sx_check((typename D::pos)icl::size(a)==w,"size counts the values"); if constexpr(sizeof(typename X::dom)<4) sx_assume(w<=(typename D::pos)std::numeric_limits<typename X::dom>::max()); sx_check((typename D::pos)icl::length(a)==w,"length counts the values"); }
  else { bool one=na&(ra.s.v==ra.e.v); auto n=icl::cardinality(a); sx_observe(n); sx_check(n==(!na?0:one?1:icl::infinity<std::size_t>::value()),"cardinality of a continuous interval is 0, 1 or infinity"); sx_check(icl::size(a)==n,"size is cardinality"); double l=icl::length(a); bool rev=D::to(1.0)<0; double w=0; if(na){ if(rev) w=icl::lower(a)-icl::upper(a); else w=icl::upper(a)-icl::lower(a); } sx_check(l==w,"length is the difference of the borders"); }
  sx_check(icl::iterative_size(a)==2,"iterative_size"); }
template<class I> void dist(){ typedef IT<I> X; typedef typename X::D D; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); bool na=nonempty(ra), nb=nonempty(rb);
  if constexpr (D::discrete){ auto w=(na&nb)?(lt(ra.e,rb.s)?rb.s-ra.e:lt(rb.e,ra.s)?ra.s-rb.e:ra.s-ra.s):ra.s-ra.s; sx_assume(w<=(typename D::pos)2147483000); if constexpr(sizeof(typename X::dom)<4) sx_assume(w<=(typename D::pos)std::numeric_limits<typename X::dom>::max()); auto d=icl::distance(a,b); sx_observe(d); sx_check((typename D::pos)d==w,"distance is the number of values between"); }
  else { double d=icl::distance(a,b); double la=icl::lower(a),ua=icl::upper(a),lb=icl::lower(b),ub=icl::upper(b); double w=0; if(na&nb){ if(D::to(1.0)<0){ if(ua>lb) w=ua-lb; else if(ub>la) w=ub-la; } else { if(ua<lb) w=lb-ua; else if(ub<la) w=la-ub; } } sx_check(d==w,"distance is the difference of the facing borders"); sx_observe(na); } }
#define OPS(n,I) HARNESS(size_##n){ sizes<I>(); } HARNESS(dist_##n){ dist<I>(); }
