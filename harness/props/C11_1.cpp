#define OPN M_SUB
#define W W_CONTENT
#define SHARD 1
#include "mapfam.inc"
