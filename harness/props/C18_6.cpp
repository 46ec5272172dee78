#define SHARD 6
#include "c18.inc"
