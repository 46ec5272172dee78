#define OPN M_XOR
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
