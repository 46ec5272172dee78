#define OPN M_INS
#define W W_CONTENT
#define SHARD 2
#include "mapfam.inc"
