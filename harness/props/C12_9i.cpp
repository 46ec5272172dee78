#define OPN M_INS
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
