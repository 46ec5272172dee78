#define SHARD 1
#include "c19.inc"
