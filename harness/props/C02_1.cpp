#include "c02.inc"
IV_INT(OPS)
