#define SHARD 4
#include "c17.inc"
