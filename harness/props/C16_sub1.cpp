#define OPN M_SUB
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
