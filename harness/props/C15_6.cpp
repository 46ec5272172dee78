#define OPN M_XOR
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
