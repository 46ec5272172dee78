#define OPN M_XOR
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
