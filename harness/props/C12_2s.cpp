#define OPN M_SET
#define W W_CONTENT
#define SHARD 2
#include "mapfam.inc"
