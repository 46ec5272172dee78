#define SHARD 7
#include "c23.inc"
