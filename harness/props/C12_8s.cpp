#define OPN M_SET
#define W W_CONTENT
#define SHARD 8
#include "mapfam.inc"
