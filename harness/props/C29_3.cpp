#define SHARD 3
#include "../c29.inc"
