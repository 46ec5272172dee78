#include "c03.inc"
IV_WIDE(OPS) IV_CONT(OPS)
