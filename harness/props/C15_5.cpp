#define OPN M_XOR
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
