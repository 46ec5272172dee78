#define SHARD 3
#include "../c25.inc"
