#define OPN M_AND
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
