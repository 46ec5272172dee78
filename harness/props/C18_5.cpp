#define SHARD 5
#include "c18.inc"
