#define SHARD 4
#include "c22.inc"
