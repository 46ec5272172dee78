#define OPN M_INS
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
