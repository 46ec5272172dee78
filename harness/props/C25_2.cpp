#define SHARD 2
#include "../c25.inc"
