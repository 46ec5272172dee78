// Family of harnesses for one set operation OPN with checks W, shard SHARD
#include "setops.hpp"
#ifdef THOROUGH
enum { NS=4, ND=2, NE=3, NSS=3, NDS=2, NF=3, WN=8, WM=8 };
#else
enum { NS=3, ND=1, NE=2, NSS=2, NDS=1, NF=2, WN=6, WM=5 };
#endif
#define FAM(nm,C,N) HARNESS(nm##_seg){ setSeg<C,OPN,N,0,W>(); } HARNESS(nm##_elem){ setElem<C,OPN,N,0,W>(); }
#define FAMC(nm,C,N) HARNESS(nm##_seg){ setSeg<C,OPN,N,0,W>(); }
#define FAMS(nm,C,B,N,M) HARNESS(nm##_set){ setSet<C,B,OPN,N,M,0,W>(); }
#define FAMF(nm,C,N) HARNESS(nm##_segF){ setSeg<C,OPN,N,-1,W>(); } HARNESS(nm##_elemF){ setElem<C,OPN,N,-1,W>(); } HARNESS(nm##_segN){ setNewSeg<C,OPN,N,-1,W>(); } HARNESS(nm##_elemN){ setNewElem<C,OPN,N,-1,W>(); }
typedef Js<int,RO<int>> jro; typedef Ss<int,RO<int>> sro; typedef Ps<int,RO<int>> pro;
typedef Js<int,CL<int>> jcl; typedef Ss<int,CL<int>> scl; typedef Ps<int,CL<int>> pcl;
typedef Js<int,LO<int>> jlo; typedef Ss<int,LO<int>> slo; typedef Ps<int,LO<int>> plo;
typedef Js<int,OP<int>> jop; typedef Ss<int,OP<int>> sop; typedef Ps<int,OP<int>> pop;
typedef Js<int,DI<int>> jdi; typedef Ss<int,DI<int>> sdi; typedef Ps<int,DI<int>> pdi;
typedef Js<double,CI<double>> jci; typedef Ss<double,CI<double>> sci; typedef Ps<double,CI<double>> pci;
typedef Js<double,RO<double>> jrd; typedef Ss<double,LO<double>> sld; typedef Ps<double,RO<double>> prd;
typedef Js<unsigned,DI<unsigned>> jdu; typedef Ps<unsigned short,CL<unsigned short>> pcus; typedef Ss<signed char,LO<signed char>> slc; typedef Js<long,RO<long>> jrl; typedef Ps<short,RO<short>> prs;
typedef icl::interval_set<int,std::greater,icl::right_open_interval<int,std::greater>> jgr; typedef icl::split_interval_set<int,std::greater,icl::closed_interval<int,std::greater>> pgc; typedef icl::interval_set<int,std::greater,icl::discrete_interval<int,std::greater>> jgd;
#if SHARD==1
FAM(jro,jro,NS) FAM(sro,sro,NS) FAM(pro,pro,NS) FAMS(jro_jro,jro,jro,NSS,NSS) FAMS(jro_pro,jro,pro,NSS,NSS) FAMS(sro_jro,sro,jro,NSS,NSS) FAMS(pro_pro,pro,pro,NSS,NSS) FAMS(pro_sro,pro,sro,NSS,NSS) FAMS(sro_sro,sro,sro,NSS,NSS)
#elif SHARD==2
FAMF(jro,jro,NF) FAMF(sro,sro,NF) FAMF(pro,pro,NF)
#elif SHARD==3
FAM(jcl,jcl,NS) FAM(scl,scl,NS) FAM(pcl,pcl,NS) FAM(jlo,jlo,NS) FAM(slo,slo,NS) FAM(plo,plo,NS) FAM(jop,jop,NS) FAM(sop,sop,NS) FAM(pop,pop,NS)
#elif SHARD==4
FAM(jdi,jdi,2) FAM(sdi,sdi,ND) FAM(pdi,pdi,ND) FAMS(jdi_pdi,jdi,pdi,NDS,NDS) FAMS(sdi_jdi,sdi,jdi,NDS,NDS) FAMS(pdi_sdi,pdi,sdi,NDS,NDS) FAMF(jdi,jdi,1)
#elif SHARD==5
FAMC(jci,jci,2) FAMC(sci,sci,2) FAMC(pci,pci,2) FAMC(jrd,jrd,NS) FAMC(sld,sld,NS) FAMC(prd,prd,NS) FAMS(jci_pci,jci,pci,NDS,NDS) FAMS(pci_pci,pci,pci,NDS,NDS)
#elif SHARD==6
FAM(jdu,jdu,ND) FAM(pcus,pcus,2) FAM(slc,slc,2) FAM(jrl,jrl,2) FAM(prs,prs,2) FAM(jgr,jgr,2) FAM(pgc,pgc,2) FAM(jgd,jgd,1)
#elif SHARD==7
HARNESS(jro_pro_setF){ setSet<jro,pro,OPN,2,2,-1,W>(); } HARNESS(sro_sro_setF){ setSet<sro,sro,OPN,2,2,-1,W>(); } HARNESS(jro_jro_setN){ setSet<jro,jro,OPN,2,2,-1,W,true>(); } HARNESS(jro_pro_setN){ setSet<jro,pro,OPN,2,2,-1,W,true>(); } HARNESS(sro_jro_setN){ setSet<sro,jro,OPN,2,2,-1,W,true>(); } HARNESS(pro_sro_setN){ setSet<pro,sro,OPN,2,2,-1,W,true>(); } FAMS(jcl_pcl,jcl,pcl,2,2) FAMS(slo_jlo,slo,jlo,2,2) FAMS(pop_pop,pop,pop,2,2)
#elif SHARD==8   // wide: N segments of a few concrete shapes, operands of NO segments at any offset
#define FAMW(nm,C) HARNESS(nm##_wseg){ Wide w; setSeg<C,OPN,WN,0,W>(); } HARNESS(nm##_welem){ Wide w; setElem<C,OPN,WN,-1,W>(); }
#define FAMWS(nm,C,B) HARNESS(nm##_wset){ Wide w; setSet<C,B,OPN,WN,WM,0,W>(); }
FAMW(jro,jro) FAMW(sro,sro) FAMW(pro,pro) FAMW(jdi,jdi) FAMWS(jro_jro,jro,jro) FAMWS(jro_pro,jro,pro) FAMWS(sro_sro,sro,sro) FAMWS(pro_pro,pro,pro) FAMWS(pro_sro,pro,sro) FAMWS(jdi_pdi,jdi,pdi)
#endif
