#define OPN M_XOR
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
