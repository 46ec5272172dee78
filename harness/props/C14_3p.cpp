#define OPN M_AND
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
