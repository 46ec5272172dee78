#define SHARD 1
#include "c18.inc"
