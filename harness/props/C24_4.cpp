#define SHARD 4
#include "c24.inc"
