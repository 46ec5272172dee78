#define OPN M_INS
#define W W_CONTENT
#define SHARD 1
#include "mapfam.inc"
