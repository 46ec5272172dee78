// calendar, clock and duration domains as tick counts
#pragma once
#define BOOST_DATE_TIME_NO_LIB
#include <boost/icl/gregorian.hpp>
#include <boost/icl/ptime.hpp>
#include <boost/chrono/duration.hpp>
#include <boost/chrono/time_point.hpp>
#include <boost/icl/rational.hpp>
#include "maps.hpp"
namespace gr=boost::gregorian; namespace pt=boost::posix_time; namespace ch=boost::chrono;
typedef gr::date DT_; typedef gr::date_duration DD; typedef pt::ptime PT; typedef pt::time_duration TD;
struct Clk { typedef ch::duration<int> duration; typedef duration::rep rep; typedef duration::period period; typedef ch::time_point<Clk> time_point; static const bool is_steady=true; };
typedef ch::duration<int> CDi; typedef ch::duration<long,boost::milli> CDm; typedef ch::duration<double> CDd; typedef ch::time_point<Clk,CDi> TPi; typedef ch::time_point<Clk,CDd> TPd;
template<class T,class O> struct TickInt : IntDom<O,int64_t> {};
template<> struct Dom<DT_> : TickInt<DT_,int> { static DT_ from(int o){ return DT_((DT_::date_int_type)(unsigned)o); } static int to(const DT_& t){ return (int)t.day_number(); } static int sym(const char* n){ return (int)sx_rng(n,32,2232410,5373470); } };
template<> struct Dom<DD> : TickInt<DD,long> { static DD from(long o){ return DD(o); } static long to(const DD& t){ return t.days(); } static long sym(const char* n){ return (long)sx_rng(n,64,-2000000000,2000000000); } };
template<> struct Dom<TD> : TickInt<TD,long> { static TD from(long o){ return TD(0,0,0,o); } static long to(const TD& t){ return t.ticks(); } static long sym(const char* n){ return (long)sx_rng(n,64,-((int64_t)1<<60),(int64_t)1<<60); } };
template<> struct Dom<PT> : TickInt<PT,long> { static PT epoch(){ return PT(gr::date((DT_::date_int_type)3000000u),TD(0,0,0,0)); } static PT from(long o){ return epoch()+TD(0,0,0,o); } static long to(const PT& t){ return (t-epoch()).ticks(); } static long sym(const char* n){ return (long)sx_rng(n,64,-((int64_t)1<<54),(int64_t)1<<54); } };
template<> struct Dom<CDi> : TickInt<CDi,int> { static CDi from(int o){ return CDi(o); } static int to(const CDi& t){ return t.count(); } static int sym(const char* n){ return Dom<int>::sym(n); } };
template<> struct Dom<CDm> : TickInt<CDm,long> { static CDm from(long o){ return CDm(o); } static long to(const CDm& t){ return t.count(); } static long sym(const char* n){ return (long)sx_rng(n,64,-((int64_t)1<<60),(int64_t)1<<60); } };
template<> struct Dom<TPi> : TickInt<TPi,int> { static TPi from(int o){ return TPi(CDi(o)); } static int to(const TPi& t){ return t.time_since_epoch().count(); } static int sym(const char* n){ return Dom<int>::sym(n); } };
template<> struct Dom<CDd> : Dom<double> { static CDd from(double o){ return CDd(o); } static double to(const CDd& t){ return t.count(); } };
template<> struct Dom<TPd> : Dom<double> { static TPd from(double o){ return TPd(CDd(o)); } static double to(const TPd& t){ return t.time_since_epoch().count(); } };
template<class N> inline int64_t tickCount(const N& n){ if constexpr (std::is_same<N,DD>::value) return n.days(); else if constexpr (std::is_same<N,TD>::value) return n.ticks(); else if constexpr (std::is_same<N,CDi>::value||std::is_same<N,CDm>::value) return n.count(); else return (int64_t)n; }
