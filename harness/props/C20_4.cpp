#define SHARD 4
#include "c20.inc"
