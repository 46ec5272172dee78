#define OPN M_XOR
#define W W_STRUCT
#define SHARD 7
#include "mapfam.inc"
