#define OPN M_AND
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
