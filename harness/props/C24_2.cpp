#define SHARD 2
#include "../c24.inc"
