#define SHARD 6
#include "../c23.inc"
