#define SHARD 7
#include "c19.inc"
