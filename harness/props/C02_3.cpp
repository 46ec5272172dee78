#include "c02.inc"
IV_WIDE(OPS) IV_CONT(OPS)
