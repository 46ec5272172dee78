#include "c02.inc"
IV_SMALL(OPS)
