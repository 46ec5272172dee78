// interval<T> with statically bounded defaults: any pretended bound kind is converted
#define BOOST_ICL_USE_STATIC_BOUNDED_INTERVALS
#include "c01.inc"
HARNESS(sfam_int){ families<int,std::less>(); } HARNESS(sfam_ushort){ families<unsigned short,std::less>(); } HARNESS(sfam_double){ families<double,std::less>(); } HARNESS(sfam_long){ families<long,std::less>(); } HARNESS(sfam_intg){ families<int,std::greater>(); }
template<class I,icl::bound_type B> void conv(){ typedef IT<I> X; typedef typename X::D D; auto a=D::sym("a"), b=D::sym("b"); sx_assume(!D::lto(b,a)); I i=icl::static_interval<I,true,B,icl::interval_bound_type<I>::value>::construct(D::from(a),D::from(b)); 
  sx_check(sameRng<I>(rngOf(i),R2<I>((B&2)?D::before(a):D::after(a),(B&1)?D::after(b):D::before(b))),"conversion between bound kinds keeps the set"); sx_observe(1); }
#define CV(n,I) HARNESS(conv_##n){ conv<I,0>(); conv<I,1>(); conv<I,2>(); conv<I,3>(); }
CV(ro,RO<int>) CV(lo,LO<int>) CV(cl,CL<int>) CV(op,OP<int>) CV(rous,RO<unsigned short>) CV(clsc,CL<signed char>) CV(opl,OP<long>) CV(rog,ROg<int>) CV(log_,LOg<int>) CV(clg,CLg<int>) CV(opg,OPg<int>)
