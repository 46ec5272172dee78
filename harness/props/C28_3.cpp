#define SHARD 3
#include "../c28.inc"
