#define SHARD 1
#include "../c29.inc"
