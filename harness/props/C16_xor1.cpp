#define OPN M_XOR
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
