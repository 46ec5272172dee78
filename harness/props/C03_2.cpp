#include "c03.inc"
IV_SMALL(OPS)
