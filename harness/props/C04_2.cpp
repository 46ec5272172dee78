#include "c04.inc"
IV_WIDE(OPS) IV_CONT(OPS)
