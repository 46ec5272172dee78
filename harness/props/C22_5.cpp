#define SHARD 5
#include "c22.inc"
