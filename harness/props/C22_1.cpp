#define SHARD 1
#include "c22.inc"
