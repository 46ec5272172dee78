#define SHARD 1
#include "c21.inc"
