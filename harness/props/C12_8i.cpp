#define OPN M_INS
#define W W_CONTENT
#define SHARD 8
#include "mapfam.inc"
