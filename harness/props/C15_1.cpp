#define OPN M_XOR
#define W W_CONTENT
#define SHARD 1
#include "mapfam.inc"
