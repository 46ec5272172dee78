#include "ivals.hpp"
template<class I> inline typename IT<I>::R capR(typename IT<I>::R a, typename IT<I>::R b){ return R2<I>(pmax(a.s,b.s),pmin(a.e,b.e)); }
template<class I> void inter(){ typedef IT<I> X; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); auto x=symPos<I>("x");
  auto r=rngOf(a&b); sx_observe(has(r,x)); sx_check(has(r,x)==(has(ra,x)&has(rb,x)),"a & b contains exactly the common values"); sx_check(sameRng<I>(r,capR<I>(ra,rb)),"a & b is one interval with the inner bounds"); 
  if(!(nonempty(ra)&nonempty(rb))) sx_check(!nonempty(r),"intersection with an empty interval is empty"); }
template<class I> void hulls(){ typedef IT<I> X; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); auto r=rngOf(icl::hull(a,b)); 
  bool na=nonempty(ra), nb=nonempty(rb); auto w= !nb? ra : !na? rb : R2<I>(pmin(ra.s,rb.s),pmax(ra.e,rb.e)); sx_observe(na); sx_check(sameRng<I>(r,w),"hull is the smallest interval containing both"); }
template<class I> void lsub(){ typedef IT<I> X; auto s=symSeg<I>("right"), t=symSeg<I>("left_minuend"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); auto x=symPos<I>("x"); auto r=rngOf(icl::left_subtract(a,b)); bool nb=nonempty(rb);
  bool m=has(r,x); sx_observe(m); sx_check(m==(has(ra,x)&(!nb|le(rb.e,x))),"left_subtract keeps exactly what lies right of the minuend"); }
template<class I> void rsub(){ typedef IT<I> X; auto s=symSeg<I>("left"), t=symSeg<I>("right_minuend"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); auto x=symPos<I>("x"); auto r=rngOf(icl::right_subtract(a,b)); bool nb=nonempty(rb);
  bool m=has(r,x); sx_observe(m); sx_check(m==(has(ra,x)&(!nb|lt(x,rb.s))),"right_subtract keeps exactly what lies left of the minuend"); }
template<class I,bool B> void gap(){ typedef IT<I> X; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); I g=B?icl::between(a,b):icl::inner_complement(a,b); auto r=rngOf(g);
  bool both=nonempty(ra)&nonempty(rb); auto w=R2<I>(pmin(ra.e,rb.e),pmax(ra.s,rb.s)); bool any=both&nonempty(w)&!overlap(ra,rb); sx_observe(any);
  sx_check(nonempty(r)==any,"the gap is empty unless something lies strictly between"); if(any) sx_check(sameRng<I>(r,w),"the gap is exactly what lies strictly between"); }
#define OPS(n,I) HARNESS(inter_##n){ inter<I>(); } HARNESS(hull_##n){ hulls<I>(); } HARNESS(lsub_##n){ lsub<I>(); } HARNESS(rsub_##n){ rsub<I>(); } HARNESS(gap_##n){ gap<I,false>(); } HARNESS(between_##n){ gap<I,true>(); }
