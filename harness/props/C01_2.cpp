#include "c01.inc"
#define M(n,I) HARNESS(makers_##n){ makers<I>(); }
IV_INT(M) IV_SMALL(M) IV_WIDE(M) IV_CONT(M)
#define L(n,I) HARNESS(limits_##n){ limits<I>(); }
IV_SMALL(L) L(ro_i,RO<int>) L(lo_i,LO<int>) L(cl_i,CL<int>) L(op_i,OP<int>) L(di_i,DI<int>) L(ro_uu,RO<unsigned>) L(di_uu,DI<unsigned>)
using icl::interval_bounds;
HARNESS(bounds_algebra){ unsigned a=sx_choose(4), b=sx_choose(4); interval_bounds x((icl::bound_type)a), y((icl::bound_type)b);
  bool la=a&2, ra=a&1, lb=b&2, rb=b&1;
  sx_check(icl::is_left_closed(x)==la,"is_left_closed"); sx_check(icl::is_right_closed(x)==ra,"is_right_closed");
  sx_check(icl::left(x).bits()==(a&2)&&icl::right(x).bits()==(a&1)&&x.left().bits()==(a&2)&&x.right().bits()==(a&1)&&icl::all(x).bits()==a,"left / right / all");
  sx_check((x&y).bits()==(a&b)&&(x|y).bits()==(a|b)&&(~x).bits()==(3&~a)&&(x==y)==(a==b)&&(x!=y)==(a!=b),"bit operations");
  sx_check(icl::outer_bounds(x,y).bits()==((la?2:0)|(rb?1:0)),"outer_bounds"); 
  sx_check(icl::inner_bounds(x,y).bits()==((ra?0u:2u)|(lb?0u:1u)),"inner_bounds: the gap is closed where its neighbours are open");
  sx_check(icl::left_bounds(x,y).bits()==((la?2:0)|(lb?1:0)),"left_bounds"); sx_check(icl::right_bounds(x,y).bits()==((ra?2:0)|(rb?1:0)),"right_bounds");
  sx_check(icl::is_complementary(x)==(la!=ra),"is_complementary");
  sx_check(x.reverse_left().bits()==(la?0:1)&&x.reverse_right().bits()==(ra?0:2),"reverse_left / reverse_right");
  sx_check(interval_bounds::open().bits()==0&&interval_bounds::left_open().bits()==1&&interval_bounds::right_open().bits()==2&&interval_bounds::closed().bits()==3,"named bounds");
  int v=sx_rng("v",32,-1000,1000); int d=icl::shift_lower(x,y,v), u=icl::shift_upper(x,y,v); sx_check(d==v+(lb&&!la?1:!lb&&la?-1:0),"shift_lower keeps the set"); sx_check(u==v+(rb&&!ra?-1:!rb&&ra?1:0),"shift_upper keeps the set"); }
