#define SHARD 9
#include "c18.inc"
