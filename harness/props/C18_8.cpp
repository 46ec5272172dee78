#define SHARD 8
#include "c18.inc"
