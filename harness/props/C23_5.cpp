#define SHARD 5
#include "../c23.inc"
