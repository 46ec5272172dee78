#define SHARD 2
#include "../c23.inc"
