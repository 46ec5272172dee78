#define OPN M_INS
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
