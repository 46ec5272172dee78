#define OPN M_XOR
#define W W_CONTENT
#define SHARD 8
#include "mapfam.inc"
