#define SHARD 1
#include "../c28.inc"
