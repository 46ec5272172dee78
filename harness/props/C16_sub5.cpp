#define OPN M_SUB
#define W W_STRUCT
#define SHARD 5
#include "mapfam.inc"
