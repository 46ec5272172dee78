#define OPN M_SUB
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
