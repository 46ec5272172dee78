#define OPN M_XOR
#define W W_CONTENT
#define SHARD 2
#include "mapfam.inc"
