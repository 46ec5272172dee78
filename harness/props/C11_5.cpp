#define OPN M_SUB
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
