#define SHARD 3
#include "c21.inc"
