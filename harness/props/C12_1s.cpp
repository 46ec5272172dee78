#define OPN M_SET
#define W W_CONTENT
#define SHARD 1
#include "mapfam.inc"
