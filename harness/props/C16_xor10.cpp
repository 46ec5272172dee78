#define OPN M_XOR
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
