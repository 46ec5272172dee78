#define OPN M_SUB
#define W W_CONTENT
#define SHARD 7
#include "mapfam.inc"
