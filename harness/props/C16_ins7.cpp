#define OPN M_INS
#define W W_STRUCT
#define SHARD 7
#include "mapfam.inc"
