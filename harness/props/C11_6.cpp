#define OPN M_SUB
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
