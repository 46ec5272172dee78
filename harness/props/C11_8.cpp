#define OPN M_SUB
#define W W_CONTENT
#define SHARD 8
#include "mapfam.inc"
