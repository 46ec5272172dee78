#define SHARD 6
#include "../c26.inc"
