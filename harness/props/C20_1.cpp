#define SHARD 1
#include "c20.inc"
