#define SHARD 7
#include "c18.inc"
