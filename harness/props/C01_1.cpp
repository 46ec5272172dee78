#include "c01.inc"
#define M(n,I) HARNESS(basics_##n){ basics<I>(); }
IV_INT(M) IV_SMALL(M) IV_WIDE(M) IV_CONT(M)
HARNESS(fam_int){ families<int,std::less>(); } HARNESS(fam_ushort){ families<unsigned short,std::less>(); } HARNESS(fam_double){ families<double,std::less>(); } HARNESS(fam_long){ families<long,std::less>(); } HARNESS(fam_intg){ families<int,std::greater>(); } HARNESS(fam_doubleg){ families<double,std::greater>(); }
