#define OPN M_INS
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
