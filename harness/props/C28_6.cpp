#define SHARD 6
#include "../c28.inc"
