#define SHARD 2
#include "../c28.inc"
