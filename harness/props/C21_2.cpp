#define SHARD 2
#include "c21.inc"
