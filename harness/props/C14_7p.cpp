#define OPN M_AND
#define W W_CONTENT
#define SHARD 7
#include "mapfam.inc"
