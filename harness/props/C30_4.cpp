#define SHARD 4
#include "../c30.inc"
