#define OPN M_SUB
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
