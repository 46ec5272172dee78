#define OPN M_XOR
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
