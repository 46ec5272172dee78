#define OPN M_INS
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
