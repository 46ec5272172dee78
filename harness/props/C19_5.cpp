#define SHARD 5
#include "c19.inc"
