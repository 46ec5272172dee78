#define SHARD 2
#include "c17.inc"
