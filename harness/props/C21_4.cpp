#define SHARD 4
#include "c21.inc"
