#define SHARD 5
#include "c21.inc"
