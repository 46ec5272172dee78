#define OPN M_XOR
#define W W_STRUCT
#define SHARD 5
#include "mapfam.inc"
