#define SHARD 1
#include "../c25.inc"
