#define OPN M_SUB
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
