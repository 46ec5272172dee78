#define OPN M_AND
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
