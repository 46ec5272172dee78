#define SHARD 6
#include "c19.inc"
