#define OPN M_INS
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
