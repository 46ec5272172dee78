#define SHARD 2
#include "c20.inc"
