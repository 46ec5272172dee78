#define OPN M_SUB
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
