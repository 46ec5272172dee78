#define SHARD 3
#include "../c26.inc"
