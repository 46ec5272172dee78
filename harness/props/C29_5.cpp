#define SHARD 5
#include "../c29.inc"
