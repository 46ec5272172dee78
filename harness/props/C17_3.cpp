#define SHARD 3
#include "c17.inc"
