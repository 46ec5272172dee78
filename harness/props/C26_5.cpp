#define SHARD 5
#include "../c26.inc"
