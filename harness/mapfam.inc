// Family of harnesses for one map operation OPN (with OPK: its key-operand variant, if any) with checks W, shard SHARD
#include "maps.hpp"
#ifdef THOROUGH
enum { NS=4, NP=3, ND=2, NSS=2, NF=3, NE=3, NST=2, WN=8, WM=8 };
#else
enum { NS=3, NP=2, ND=1, NSS=2, NF=2, NE=2, NST=1, WN=6, WM=4 };
#endif
#define MTYPES(p,K,I) typedef MT<K,PA,I,true> p##ja; typedef MT<K,PE,I,true> p##je; typedef MT<K,TA,I,true> p##ta; typedef MT<K,TE,I,true> p##te; typedef MT<K,PA,I,false> p##pa; typedef MT<K,PE,I,false> p##pe; typedef MT<K,TA,I,false> p##sa; typedef MT<K,TE,I,false> p##se;
MTYPES(ro,KPlus,RO<int>) MTYPES(cl,KPlus,CL<int>) MTYPES(lo,KPlus,LO<int>) MTYPES(op,KPlus,OP<int>) MTYPES(di,KPlus,DI<int>) MTYPES(ci,KPlus,CI<double>) MTYPES(rd,KPlus,RO<double>) MTYPES(ld,KPlus,LO<double>)
MTYPES(st,KSet,RO<int>) MTYPES(sd,KSet,DI<int>) MTYPES(sc,KSet,CI<double>) MTYPES(mx,KMax,RO<int>) MTYPES(xn,KMaxN,RO<int>) MTYPES(mn,KMin,RO<int>) MTYPES(ap,KApp,RO<int>) MTYPES(bt,KBit,RO<int>) MTYPES(un,KPlus,DI<unsigned>) MTYPES(us,KPlus,CL<unsigned short>) MTYPES(rl,KPlus,RO<long>)
typedef icl::right_open_interval<int,std::greater> GRO; typedef icl::closed_interval<int,std::greater> GCL; typedef icl::discrete_interval<int,std::greater> GDI;
template<class K,class Tr> using GJ=MT<K,Tr,GRO,true>;
#ifndef NFORM
#define NFORM 0
#endif
#define FAM(t,N) HARNESS(t##_seg){ mapSeg<t,OPN,N,NFORM,W>(); } HARNESS(t##_elem){ mapElem<t,OPN,N,NFORM,W>(); }
#define FAMC(t,N) HARNESS(t##_seg){ mapSeg<t,OPN,N,NFORM,W>(); }
#define FAMF(t,N) HARNESS(t##_segF){ mapSeg<t,OPN,N,-1,W>(); } HARNESS(t##_elemF){ mapElem<t,OPN,N,-1,W>(); }
#define FAMM(t,b,N,M) HARNESS(t##_##b##_map){ mapMap<t,b,OPN,N,M,NFORM,W>(); }
#define FAMMF(t,b,N,M) HARNESS(t##_##b##_mapF){ mapMap<t,b,OPN,N,M,-1,W>(); }
#define FAMS(t,N,M) HARNESS(t##_jset){ mapSet<t,t::JS,OPN,N,M,-1,W>(); } HARNESS(t##_pset){ mapSet<t,t::PS,OPN,N,M,-1,W>(); }
#define ALL8(X,p,N) X(p##ja,N) X(p##je,N) X(p##ta,N) X(p##te,N) X(p##pa,N) X(p##pe,N) X(p##sa,N) X(p##se,N)
#ifdef KEYOP   // operand: a key, an interval of keys, a set of keys
#define IFMAP(x)
#define IFSET(x) x
#else
#define IFMAP(x) x
#define IFSET(x)
#endif
#if SHARD==1
ALL8(FAM,ro,NS)
#elif SHARD==2
ALL8(FAMF,ro,1) ALL8(FAMF,st,1)
#elif SHARD==3
ALL8(FAM,st,NS) FAM(mxja,NS) FAM(mnja,NS) FAM(btja,NS) FAM(mxpe,NS) FAM(mnje,NS) FAM(xnje,NS) FAM(xnpe,NS)
#ifdef WITHAPP
FAM(apja,NS) FAM(appa,NS) FAM(apje,NS) FAM(apta,NS)
#endif
#elif SHARD==4
FAM(clja,NS) FAM(clpe,NS) FAM(clta,NS) FAM(loja,NS) FAM(lope,NS) FAM(lote,NS) FAM(opja,NS) FAM(oppa,NS) FAM(opse,NS) FAM(unja,1) FAM(uspa,NS) FAM(rlje,NS)
#elif SHARD==5
FAM(dija,ND) FAM(dije,ND) FAM(dipa,ND) FAM(dite,ND) FAM(disa,ND) FAM(sdja,ND) 
#elif SHARD==6
FAMC(cija,ND) FAMC(cipe,ND) FAMC(cita,ND) FAMC(scja,ND) FAMC(rdja,NS) FAMC(ldpe,NS) FAMC(rdte,NS)
#elif SHARD==7
IFMAP(FAMM(roja,roja,NSS,NSS) FAMM(roje,roje,NSS,NSS) FAMM(rota,rota,NSS,NSS) FAMM(rote,rote,NSS,NSS) FAMM(ropa,ropa,NSS,NSS) FAMM(rope,rope,NSS,NSS) FAMM(rosa,rosa,NSS,NSS) FAMM(rose,rose,NSS,NSS))
IFMAP(FAMMF(roja,ropa,1,NSS) FAMMF(ropa,roja,1,NSS) FAMMF(roje,rope,1,NSS) FAMMF(rote,rose,1,NSS) FAMMF(rosa,rota,1,NSS))
IFMAP(FAMM(stja,stja,NSS,NST) FAMM(stpe,stje,NSS,NST) FAMM(stta,stsa,NSS,NST) FAMM(dija,dipa,1,1) FAMM(cija,cija,1,1))
IFSET(FAMS(roja,NSS,NSS) FAMS(roje,NSS,NSS) FAMS(ropa,NSS,NSS) FAMS(rope,NSS,NSS) FAMS(rota,NSS,NSS) FAMS(rose,NSS,NSS) FAMS(stja,NSS,NSS) FAMS(dipa,1,1) FAMS(cije,1,1))
#elif SHARD==8
typedef GJ<KPlus,PA> gja; typedef MT<KPlus,PE,GCL,false> gpe; typedef MT<KSet,TA,GRO,true> gta; typedef MT<KPlus,PA,GDI,true> gda;
FAM(gja,NS) FAM(gpe,NS) FAM(gta,NS) FAM(gda,1)
#elif SHARD==9   // one more pre-segment on the plain types
#define FAM4(t,N) HARNESS(t##_deep){ mapSeg<t,OPN,N,NFORM,W>(); }
FAM4(roja,NS+1) FAM4(ropa,NS+1) FAM4(roje,NS+1) FAM4(rope,NS+1)
#elif SHARD==10   // wide: WN segments of a few concrete shapes, operands of WM segments at any offset
#define FAMW(t) HARNESS(t##_wseg){ Wide w; mapSeg<t,OPN,WN,0,W>(); }
#define FAME(t) HARNESS(t##_welem){ Wide w; mapElem<t,OPN,WN,0,W>(); }
#define FAMWM(t,b) HARNESS(t##_##b##_wmap){ Wide w; mapMap<t,b,OPN,WN,WM,0,W>(); }
#define FAMWS(t) HARNESS(t##_wset){ Wide w; mapSet<t,t::JS,OPN,WN,WM,0,W>(); }
FAMW(roja) FAMW(ropa) FAMW(roje) FAMW(stja) FAME(roja) FAME(ropa)
#ifndef NOWMAP
IFMAP(FAMWM(roja,roja) FAMWM(ropa,ropa) FAMWM(stja,stja))
#endif
IFSET(FAMWS(roja) FAMWS(ropa))
#ifdef THOROUGH
FAMW(dije) FAMW(rota) FAMW(rosa) FAME(roje) FAME(stja) FAME(dije)
#ifndef NOWMAP
IFMAP(FAMWM(roje,rope) FAMWM(rota,rosa) FAMWM(rope,roje))
#endif
IFSET(FAMWS(rope) FAMWS(stja))
#endif
#endif
