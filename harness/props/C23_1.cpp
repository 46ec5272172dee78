#define SHARD 1
#include "../c23.inc"
