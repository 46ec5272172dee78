#define SHARD 3
#include "../c24.inc"
