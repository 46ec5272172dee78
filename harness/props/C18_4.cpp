#define SHARD 4
#include "c18.inc"
