#define OPN M_INS
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
