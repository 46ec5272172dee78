#define SHARD 6
#include "c22.inc"
