#define SHARD 7
#include "c17.inc"
