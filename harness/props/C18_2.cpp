#define SHARD 2
#include "c18.inc"
