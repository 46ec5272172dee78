#define SHARD 2
#include "../c26.inc"
