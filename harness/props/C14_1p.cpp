#define OPN M_AND
#define W W_CONTENT
#define SHARD 1
#include "mapfam.inc"
