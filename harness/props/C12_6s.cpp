#define OPN M_SET
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
