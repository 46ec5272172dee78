#define SHARD 4
#include "../c29.inc"
