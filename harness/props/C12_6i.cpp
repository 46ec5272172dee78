#define OPN M_INS
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
