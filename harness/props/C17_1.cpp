#define SHARD 1
#include "c17.inc"
