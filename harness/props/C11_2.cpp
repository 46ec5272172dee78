#define OPN M_SUB
#define W W_CONTENT
#define SHARD 2
#include "mapfam.inc"
