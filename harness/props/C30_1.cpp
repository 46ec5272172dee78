#define SHARD 1
#include "../c30.inc"
