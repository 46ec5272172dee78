#define SHARD 2
#include "../c29.inc"
