#define OPN M_AND
#define W W_CONTENT
#define SHARD 8
#include "mapfam.inc"
