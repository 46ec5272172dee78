#define SHARD 4
#include "../c26.inc"
