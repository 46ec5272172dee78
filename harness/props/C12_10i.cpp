#define OPN M_INS
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
