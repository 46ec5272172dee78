#define SHARD 3
#include "../c23.inc"
