#define SHARD 3
#include "../c30.inc"
