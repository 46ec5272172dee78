#define SHARD 9
#include "c19.inc"
