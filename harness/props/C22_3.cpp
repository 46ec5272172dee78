#define SHARD 3
#include "c22.inc"
