#define SHARD 3
#include "c20.inc"
