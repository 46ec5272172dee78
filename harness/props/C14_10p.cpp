#define OPN M_AND
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
