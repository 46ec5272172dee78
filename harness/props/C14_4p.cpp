#define OPN M_AND
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
