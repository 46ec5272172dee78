#define OPN M_AND
#define W W_CONTENT
#define SHARD 2
#include "mapfam.inc"
