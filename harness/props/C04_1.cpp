#include "c04.inc"
IV_INT(OPS) IV_SMALL(OPS)
