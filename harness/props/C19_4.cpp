#define SHARD 4
#include "c19.inc"
