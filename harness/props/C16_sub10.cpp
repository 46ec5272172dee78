#define OPN M_SUB
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
