#define OPN M_XOR
#define W W_CONTENT
#define SHARD 7
#include "mapfam.inc"
