#define OPN M_INS
#define W W_STRUCT
#define SHARD 5
#include "mapfam.inc"
