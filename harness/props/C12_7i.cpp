#define OPN M_INS
#define W W_CONTENT
#define SHARD 7
#include "mapfam.inc"
