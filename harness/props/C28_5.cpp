#define SHARD 5
#include "../c28.inc"
