#define SHARD 2
#include "../c30.inc"
