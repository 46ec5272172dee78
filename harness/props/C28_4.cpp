#define SHARD 4
#include "../c28.inc"
