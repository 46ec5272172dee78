#include "ivals.hpp"
#include <boost/icl/detail/exclusive_less_than.hpp>
template<class I> void relations(){ typedef IT<I> X; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); bool na=nonempty(ra), nb=nonempty(rb);
  sx_observe(na);
  sx_check(icl::contains(a,b)==sub(rb,ra),"contains(a,b) iff b is a subset of a"); sx_check(icl::within(b,a)==sub(rb,ra),"within(b,a) iff b is a subset of a");
  bool ov=overlap(ra,rb); sx_check(icl::intersects(a,b)==ov,"intersects iff a value is common"); sx_check(icl::disjoint(a,b)==!ov,"disjoint iff no value is common"); }
template<class I> void orders(){ typedef IT<I> X; auto s=symSeg<I>("a"), t=symSeg<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t); bool na=nonempty(ra), nb=nonempty(rb);
  bool same=(!na&!nb)|(na&nb&eq(ra.s,rb.s)&eq(ra.e,rb.e)); bool e=(a==b); sx_observe(e);
  sx_check(e==same,"== iff both contain the same values"); sx_check((a!=b)==!same,"!= is the negation of ==");
  bool less=na&nb&(lt(ra.s,rb.s)|(eq(ra.s,rb.s)&lt(ra.e,rb.e))); bool greater=na&nb&(lt(rb.s,ra.s)|(eq(ra.s,rb.s)&lt(rb.e,ra.e)));
  sx_check((a<b)==less,"a<b: smaller begin, or equal begin and smaller end"); sx_check((a>b)==greater,"a>b is b<a"); sx_check((a<=b)==(na&nb&!greater),"a<=b"); sx_check((a>=b)==(na&nb&!less),"a>=b");
  bool xl=!na|!nb|le(ra.e,rb.s); sx_check(icl::exclusive_less(a,b)==xl,"exclusive_less iff everything in a lies before everything in b"); }
template<class I> void borders(){ typedef IT<I> X; typedef typename X::D D; auto s=symNE<I>("a"), t=symNE<I>("b"); I a=X::mk(s), b=X::mk(t); auto ra=X::rng(s), rb=X::rng(t);
  bool l=icl::lower_less(a,b); sx_observe(l);
  sx_check(l==lt(ra.s,rb.s),"lower_less compares where the intervals begin"); sx_check(icl::upper_less(a,b)==lt(ra.e,rb.e),"upper_less compares where the intervals end"); sx_check(icl::lower_equal(a,b)==eq(ra.s,rb.s),"lower_equal"); sx_check(icl::upper_equal(a,b)==eq(ra.e,rb.e),"upper_equal");
  sx_check(icl::lower_less_equal(a,b)==le(ra.s,rb.s),"lower_less_equal"); sx_check(icl::upper_less_equal(a,b)==le(ra.e,rb.e),"upper_less_equal");
  sx_check(icl::touches(a,b)==eq(ra.e,rb.s),"touches iff a ends exactly where b begins"); sx_check(icl::non_empty::exclusive_less(a,b)==le(ra.e,rb.s),"non_empty::exclusive_less"); sx_check(icl::non_empty::contains(a,b)==sub(rb,ra),"non_empty::contains");
  icl::exclusive_less_than<I> xlt; sx_check(xlt(a,b)==le(ra.e,rb.s),"exclusive_less_than functor");
  if constexpr (X::dyn){ auto pl=[&](auto bv,bool up){ Seg<typename D::ord> q; unsigned k=bv.bound().bits(); q.lo=q.up=D::to(bv.value()); q.b= up? (k&1) : (k&2); auto r=X::rng(q); return up? r.e : r.s; };
    sx_check(eq(pl(icl::lower_min(a,b),false),pmin(ra.s,rb.s))&eq(pl(icl::lower_max(a,b),false),pmax(ra.s,rb.s))&eq(pl(icl::upper_min(a,b),true),pmin(ra.e,rb.e))&eq(pl(icl::upper_max(a,b),true),pmax(ra.e,rb.e)),"lower_min / lower_max / upper_min / upper_max"); } }
// order laws on three non-empty intervals, judged by the library's own answers
template<class I> void laws(){ typedef IT<I> X; I a=X::mk(symNE<I>("a")), b=X::mk(symNE<I>("b")), c=X::mk(symNE<I>("c")); bool ab=a<b, bc=b<c, ac=a<c; sx_observe(ab);
  sx_check(!(a<a),"irreflexive"); sx_check(!(ab&(b<a)),"asymmetric"); sx_check(!(ab&bc)|ac,"transitive"); sx_check((ab+(b<a)+(a==b))==1,"exactly one of <, >, == holds"); bool eab=a==b, ebc=b==c; sx_check(!(eab&ebc)|(a==c),"== is transitive");
  bool xab=icl::exclusive_less(a,b), xbc=icl::exclusive_less(b,c); sx_check(!(xab&xbc)|icl::exclusive_less(a,c),"exclusive_less is transitive"); sx_check(!xab|ab,"exclusive_less implies <"); }
#define OPS(n,I) HARNESS(rel_##n){ relations<I>(); } HARNESS(ord_##n){ orders<I>(); } HARNESS(brd_##n){ borders<I>(); } HARNESS(law_##n){ laws<I>(); }
