#define OPN M_SUB
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
