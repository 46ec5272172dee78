#define OPN M_SET
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
