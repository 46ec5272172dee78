#include "setops.hpp"
#define W 3
#define H4(nm,C,N) HARNESS(nm##_add){ setSeg<C,OP_ADD,N,0,W>(); } HARNESS(nm##_sub){ setSeg<C,OP_SUB,N,0,W>(); } HARNESS(nm##_and){ setSeg<C,OP_AND,N,0,W>(); } HARNESS(nm##_xor){ setSeg<C,OP_XOR,N,0,W>(); }
#define COMMA ,
typedef Js<int,RO<int>> jro; typedef Ss<int,RO<int>> sro; typedef Ps<int,RO<int>> pro; typedef Js<int,OP<int>> jop; typedef Ps<int,DI<int>> pdi; typedef Js<int,DI<int>> jdi; typedef Ss<double,CI<double>> sci;
H4(jro,jro,2) H4(sro,sro,2) H4(pro,pro,2) H4(jop,jop,2) H4(jdi,jdi,1) H4(pdi,pdi,1) H4(sci,sci,1)
#define H5(nm,C,B,N,M) HARNESS(nm##_adds){ setSet<C,B,OP_ADD,N,M,0,W>(); } HARNESS(nm##_subs){ setSet<C,B,OP_SUB,N,M,0,W>(); } HARNESS(nm##_ands){ setSet<C,B,OP_AND,N,M,0,W>(); } HARNESS(nm##_xors){ setSet<C,B,OP_XOR,N,M,0,W>(); }
H5(jjro,jro,jro,2,2) H5(ssro,sro,pro,2,2) H5(ppro,pro,pro,2,2)  H5(ppdi,pdi,pdi,1,1)
HARNESS(jro_naddf){ setNewSeg<jro,OP_ADD,2,-1,W>(); }
HARNESS(jro_nelem){ setNewElem<jro,OP_XOR,2,-1,W>(); }
HARNESS(jdi_elem){ setElem<jdi,OP_ADD,2,-1,W>(); }
HARNESS(jro_nset){ setSet<jro,pro,OP_AND,2,2,-1,W,true>(); }
