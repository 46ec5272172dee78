#include "c03.inc"
IV_INT(OPS)
