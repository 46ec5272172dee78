#define SHARD 1
#include "../c26.inc"
