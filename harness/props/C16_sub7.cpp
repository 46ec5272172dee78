#define OPN M_SUB
#define W W_STRUCT
#define SHARD 7
#include "mapfam.inc"
