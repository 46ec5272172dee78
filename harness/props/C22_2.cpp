#define SHARD 2
#include "c22.inc"
