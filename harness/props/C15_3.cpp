#define OPN M_XOR
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
