#define SHARD 5
#include "c17.inc"
