#define SHARD 2
#include "c19.inc"
