#define SHARD 3
#include "c18.inc"
