#define SHARD 6
#include "c17.inc"
