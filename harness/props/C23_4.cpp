#define SHARD 4
#include "../c23.inc"
