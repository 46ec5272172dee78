#define SHARD 3
#include "c19.inc"
