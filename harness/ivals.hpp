// Interval level harness helpers
#pragma once
#include "model.hpp"
template<class T> using RO=icl::right_open_interval<T>; template<class T> using LO=icl::left_open_interval<T>; template<class T> using CL=icl::closed_interval<T>; template<class T> using OP=icl::open_interval<T>;
template<class T> using DI=icl::discrete_interval<T>; template<class T> using CI=icl::continuous_interval<T>;
template<class T> using ROg=icl::right_open_interval<T,std::greater>; template<class T> using LOg=icl::left_open_interval<T,std::greater>; template<class T> using CLg=icl::closed_interval<T,std::greater>; template<class T> using OPg=icl::open_interval<T,std::greater>;
template<class T> using DIg=icl::discrete_interval<T,std::greater>; template<class T> using CIg=icl::continuous_interval<T,std::greater>;
// every interval class; M(name, type)
#define IV_INT(M) M(ro,RO<int>) M(lo,LO<int>) M(cl,CL<int>) M(op,OP<int>) M(di,DI<int>) M(rog,ROg<int>) M(log_,LOg<int>) M(clg,CLg<int>) M(opg,OPg<int>) M(dig,DIg<int>)
#define IV_SMALL(M) M(ro_us,RO<unsigned short>) M(lo_us,LO<unsigned short>) M(cl_us,CL<unsigned short>) M(op_us,OP<unsigned short>) M(di_us,DI<unsigned short>) M(ro_sc,RO<signed char>) M(cl_sc,CL<signed char>) M(lo_uc,LO<unsigned char>) M(op_s,OP<short>) M(di_s,DI<short>) M(di_c,DI<char>)
#define IV_WIDE(M) M(ro_u,RO<unsigned>) M(cl_u,CL<unsigned>) M(di_u,DI<unsigned>) M(lo_l,LO<long>) M(op_l,OP<long>) M(di_l,DI<long>) M(ro_ul,RO<unsigned long>) M(di_ul,DI<unsigned long>)
#define IV_CONT(M) M(rod,RO<double>) M(lod,LO<double>) M(ci,CI<double>) M(rogd,ROg<double>) M(logd,LOg<double>) M(cig,CIg<double>)
template<class I> constexpr bool isDisc = IT<I>::D::discrete;
template<class I> inline bool sameRng(typename IT<I>::R a, typename IT<I>::R b){ return (!nonempty(a)&!nonempty(b)) | (eq(a.s,b.s)&eq(a.e,b.e)); }
template<class I> inline typename IT<I>::R R2(typename IT<I>::P s, typename IT<I>::P e){ typename IT<I>::R r; r.s=s; r.e=e; return r; }
template<class T> inline T fullSym(const char* n){ if constexpr(std::is_same<T,double>::value) return Dom<double>::sym(n); else return (T)sx_rng(n,8*sizeof(T),-((int64_t)1<<(8*sizeof(T)-1)),(int64_t)(((uint64_t)1<<(8*sizeof(T)-1))-1)); }
