#define SHARD 8
#include "c19.inc"
